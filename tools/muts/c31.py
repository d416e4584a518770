F='cmd/horcrux/cmd/config.go'
B,K="C31","=C31"
def one(n,p,a,b): return (n,p,[(F,a,b)])
DIFFN='''	for _, a := range setA {
		found := false
		for _, b := range setB {
			if a == b {
				found = true
			}
		}
		if !found {
			diff = append(diff, a)
		}
	}
	return
}

var peersCmd'''
DIFFP='''	for _, a := range setA {
		found := false
		for _, b := range setB {
			if a == b {
				found = true
			}
		}
		if !found {
			diff = append(diff, a)
		}
	}
	return
}

var chainIDCmd'''
REM='''			var argPeers []CosignerPeer
			for _, peer := range config.CosignerConfig.Peers {
				for _, id := range strings.Split(args[0], ",") {
					id, err := strconv.Atoi(id)
					if err != nil {
						return err
					}
					if peer.ShareID == id {
						argPeers = append(argPeers, peer)
					}
				}
			}

			diff := diffSetCosignerPeer(config.CosignerConfig.Peers, argPeers)
'''
ADDN='''			diff := diffSetChainNode(argNodes, config.ChainNodes)
			if len(diff) == 0 {
				return errors.New("no new chain nodes in args")
			}
			diff = append(config.ChainNodes, diff...)
'''
M=[
 one("c31-prefix",B,DIFFN,DIFFN.replace("if a == b {","if strings.HasPrefix(a.PrivValAddr, b.PrivValAddr) {")),
 one("c31-sameaddr",B,DIFFP,DIFFP.replace("if a == b {","if a.P2PAddr == b.P2PAddr {")),
 one("c31-fresh",B,ADDN,ADDN.replace("			diff = append(config.ChainNodes, diff...)\n","")),
 one("c31-argsonly",B,ADDN,"			diff := argNodes\n"),
 one("c31-drop1",B,ADDN,ADDN.replace("append(config.ChainNodes, diff...)","append(config.ChainNodes[1:], diff...)")),
 one("c31-onlyfirst",B,ADDN,ADDN.replace("diff...)","diff[0])")),
 one("c31-sharesmin",B,"			config.CosignerConfig.Shares = numShares\n","			config.CosignerConfig.Shares = numShares\n			if config.CosignerConfig.Threshold > numShares {\n				config.CosignerConfig.Threshold = numShares\n			}\n"),
 one("c31-sharespeers",B,"			config.CosignerConfig.Shares = numShares\n","			config.CosignerConfig.Shares = len(config.CosignerConfig.Peers) + 1\n"),
 one("c31-sharesplus",B,"			config.CosignerConfig.Shares = numShares\n","			config.CosignerConfig.Shares = numShares + 1\n"),
 one("c31-shrink",B,"			if len(diff) == 0 {\n				return errors.New(\"cannot remove all peer nodes","			config.CosignerConfig.Shares = len(diff) + 1\n			if len(diff) == 0 {\n				return errors.New(\"cannot remove all peer nodes"),
 one("c31-cwd",B,"			config.ChainID = args[0]\n			if err = writeConfigFile(path.Join(home, \"config.yaml\"), config)","			config.ChainID = args[0]\n			if err = writeConfigFile(path.Join(config.ChainID, \"config.yaml\"), config)"),
 one("c31-ignore",B,"			config.CosignerConfig.Shares = numShares\n			if err := writeConfigFile(path.Join(home, \"config.yaml\"), config); err != nil {\n				return err\n			}\n","			config.CosignerConfig.Shares = numShares\n			_ = writeConfigFile(path.Join(home, \"config.yaml\"), config)\n"),
 one("c31-okerr",B,"			if len(diff) == 0 {\n				return errors.New(\"no new peer nodes in args\")\n			}\n","			if len(diff) == 0 {\n				return nil\n			}\n"),
 one("c31-initlisten",B,"						P2PListen: listen,\n","						P2PListen: url.Host,\n"),
 one("c31-inithome",B,'''				cfg = &Config{
					HomeDir:        home,
					PrivValKeyFile: keyFile,
					ChainID:        cid,
					ChainNodes:     cn,''','''				cfg = &Config{
					HomeDir:        homeDir,
					PrivValKeyFile: keyFile,
					ChainID:        cid,
					ChainNodes:     cn,'''),
 one("c31-initpeer",B,"out = append(out, CosignerPeer{ShareID: int(shareid), P2PAddr: ps[0]})","out = append(out, CosignerPeer{ShareID: int(shareid), P2PAddr: strings.Split(peers, \"|\")[0]})"),
 one("c31-skiplast",B,"for _, p := range strings.Split(peers, \",\") {","all := strings.Split(peers, \",\")\n	for i, p := range all {\n		if i > 0 && p == all[i-1] {\n			continue\n		}\n		if i == len(all)-1 && i > 9 {\n			break\n		}"),
 one("c31-nodeskip",B,"	for _, n := range strings.Split(nodes, \",\") {\n","	for i, n := range strings.Split(nodes, \",\") {\n		if i > 3 {\n			break\n		}\n"),
 one("c31-remless",B,"					if peer.ShareID == id {","					if peer.ShareID <= id {"),
 one("c31-rembreak",B,DIFFP,DIFFP.replace("		if !found {\n			diff = append(diff, a)\n		}\n","		if found {\n			break\n		}\n		diff = append(diff, a)\n")),
 one("c31-remorder",B,"					if peer.ShareID == id {\n						argPeers = append(argPeers, peer)","					if peer.ShareID == id {\n						argPeers = append(argPeers, config.CosignerConfig.Peers[0])"),
 # behaviour preserving
 one("c31-k-break",K,DIFFN,DIFFN.replace("				found = true\n","				found = true\n				break\n")),
 one("c31-k-helper",K,DIFFN,'''	for _, a := range setA {
		if !hasNode(setB, a) {
			diff = append(diff, a)
		}
	}
	return
}

func hasNode(nodes []ChainNode, node ChainNode) bool {
	for _, n := range nodes {
		if n == node {
			return true
		}
	}
	return false
}

var peersCmd'''),
 one("c31-k-label",K,DIFFP,'''outer:
	for _, a := range setA {
		for _, b := range setB {
			if a == b {
				continue outer
			}
		}
		diff = append(diff, a)
	}
	return
}

var chainIDCmd'''),
 one("c31-k-map",K,DIFFN,'''	have := make(map[ChainNode]bool, len(setB))
	for _, b := range setB {
		have[b] = true
	}
	for _, a := range setA {
		if !have[a] {
			diff = append(diff, a)
		}
	}
	return
}

var peersCmd'''),
 one("c31-k-struct",K,DIFFN,'''	have := make(map[string]struct{})
	for _, b := range setB {
		have[b.PrivValAddr] = struct{}{}
	}
	for _, a := range setA {
		if _, ok := have[a.PrivValAddr]; !ok {
			diff = append(diff, a)
		}
	}
	return
}

var peersCmd'''),
 one("c31-k-remswap",K,'''			for _, peer := range config.CosignerConfig.Peers {
				for _, id := range strings.Split(args[0], ",") {
					id, err := strconv.Atoi(id)
					if err != nil {
						return err
					}
					if peer.ShareID == id {
						argPeers = append(argPeers, peer)
					}
				}
			}
''','''			for _, arg := range strings.Split(args[0], ",") {
				id, err := strconv.Atoi(arg)
				if err != nil {
					return err
				}
				for _, peer := range config.CosignerConfig.Peers {
					if peer.ShareID == id {
						argPeers = append(argPeers, peer)
					}
				}
			}
'''),
 one("c31-k-remids",K,REM,'''			ids := make(map[int]bool)
			for _, arg := range strings.Split(args[0], ",") {
				id, err := strconv.Atoi(arg)
				if err != nil {
					return err
				}
				ids[id] = true
			}
			var diff []CosignerPeer
			for _, peer := range config.CosignerConfig.Peers {
				if !ids[peer.ShareID] {
					diff = append(diff, peer)
				}
			}
'''),
 one("c31-k-pcopy",K,'''			config.CosignerConfig.Peers = diff
			if err := writeConfigFile(path.Join(home, "config.yaml"), config); err != nil {
				return err
			}
			return nil
		},
	}
}

func removePeersCmd''','''			cosigner := *config.CosignerConfig
			cosigner.Peers = diff
			updated := *config
			updated.CosignerConfig = &cosigner
			if err := writeConfigFile(path.Join(home, "config.yaml"), &updated); err != nil {
				return err
			}
			config = &updated
			return nil
		},
	}
}

func removePeersCmd'''),
 one("c31-k-newlist",K,ADDN,'''			diff := diffSetChainNode(argNodes, config.ChainNodes)
			if len(diff) == 0 {
				return errors.New("no new chain nodes in args")
			}
			nodes := make([]ChainNode, 0, len(config.ChainNodes)+len(diff))
			nodes = append(nodes, config.ChainNodes...)
			nodes = append(nodes, diff...)
			diff = nodes
'''),
 one("c31-k-loopadd",K,ADDN,'''			diff := diffSetChainNode(argNodes, config.ChainNodes)
			if len(diff) == 0 {
				return errors.New("no new chain nodes in args")
			}
			var nodes []ChainNode
			for _, n := range config.ChainNodes {
				nodes = append(nodes, n)
			}
			for _, n := range diff {
				nodes = append(nodes, n)
			}
			diff = nodes
'''),
 ("c31-k-home",K,[(F,'''			var home string // In root.go we end up with our
			if homeDir != "" {
				home = homeDir
			} else {
				home, _ = homedir.Dir()
				home = path.Join(home, ".horcrux")
			}

			numShares''','''			home := horcruxHome()

			numShares'''),(F,"func setSharesCmd",'''func horcruxHome() string {
	if homeDir != "" {
		return homeDir
	}
	home, _ := homedir.Dir()
	return path.Join(home, ".horcrux")
}

func setSharesCmd''')]),
 one("c31-k-idx",K,'''	for _, p := range strings.Split(peers, ",") {
		ps := strings.Split(p, "|")
''','''	list := strings.Split(peers, ",")
	for i := range list {
		p := list[i]
		ps := strings.SplitN(p, "|", 3)
'''),
 one("c31-k-atoi",K,"strconv.Atoi(args[0])","strconv.ParseInt(args[0], 10, 0)") if False else one("c31-k-return",K,'''			config.CosignerConfig.Shares = numShares
			if err := writeConfigFile(path.Join(home, "config.yaml"), config); err != nil {
				return err
			}
			return nil
''','''			config.CosignerConfig.Shares = numShares
			return writeConfigFile(path.Join(home, "config.yaml"), config)
'''),
]
