F='cmd/horcrux/cmd/config.go'
M=[
("c18-nodup","C18",[(F,'''	if dupl := duplicatePeers(peers); len(dupl) != 0 {
		return fmt.Errorf("found duplicate share IDs in args: %v", dupl)
	}
''','''	if dupl := duplicatePeers(peers); len(dupl) > 1 {
		return fmt.Errorf("found duplicate share IDs in args: %v", dupl)
	}
''')]),
("c18-dupaddr","C18",[(F,'''		if _, found := encountered[peer.ShareID]; !found {
			encountered[peer.ShareID] = peer.P2PAddr
		} else {''','''		if addr, found := encountered[peer.ShareID]; !found || addr == peer.P2PAddr {
			encountered[peer.ShareID] = peer.P2PAddr
		} else {''')]),
("c18-range0","C18",[(F,"peer.ShareID < 1 || peer.ShareID > shares","peer.ShareID < 0 || peer.ShareID > shares")]),
("c18-rangehi","C18",[(F,"peer.ShareID < 1 || peer.ShareID > shares","peer.ShareID < 1 || peer.ShareID > shares+1")]),
("c18-room","C18",[(F,"if len(peers) >= shares {","if len(peers) > shares {")]),
("c18-addonlynew","C18",[(F,'''			diff = append(config.CosignerConfig.Peers, diff...)
			if err := validateCosignerPeers(diff, config.CosignerConfig.Shares); err != nil {
				return err
			}
''','''			if err := validateCosignerPeers(diff, config.CosignerConfig.Shares); err != nil {
				return err
			}
			diff = append(config.CosignerConfig.Peers, diff...)
''')]),
("c18-early","C18",[(F,'''			diff = append(config.CosignerConfig.Peers, diff...)
			if err := validateCosignerPeers(diff, config.CosignerConfig.Shares); err != nil {
				return err
			}

			config.CosignerConfig.Peers = diff
''','''			config.CosignerConfig.Peers = append(config.CosignerConfig.Peers, diff...)
			if err := validateCosignerPeers(config.CosignerConfig.Peers, config.CosignerConfig.Shares); err != nil {
				return err
			}
''')]),
("c18-lastnode","C18",[(F,'''		if _, err = url.Parse(n.PrivValAddr); err != nil {
			return
		}
''','''		_, err = url.Parse(n.PrivValAddr)
''')]),
("c18-nochain","C18",[(F,'''	if cfg.ChainID == "" {
		return fmt.Errorf("chain-id cannot be empty")
	}
	if cfg.CosignerConfig == nil {''','''	if cfg.CosignerConfig == nil {''')]),
("c18-timeout","C18",[(F,'''	if err != nil {
		return fmt.Errorf("%s is not a valid duration string for --timeout ", cfg.CosignerConfig.Timeout)''','''	if err != nil && cfg.CosignerConfig.Timeout != "" {
		return fmt.Errorf("%s is not a valid duration string for --timeout ", cfg.CosignerConfig.Timeout)''')]),
("c18-thr","C18",[(F,"if len(cfg.CosignerConfig.Peers)+1 < cfg.CosignerConfig.Threshold {","if len(cfg.CosignerConfig.Peers)+2 < cfg.CosignerConfig.Threshold {")]),
("c18-over","C18",[(F,"!os.IsNotExist(err) && !overwrite {","!os.IsNotExist(err) && !overwrite && len(args) == 2 {")]),
("c18-otherpath","C18",[(F,"if _, err := os.Stat(configYamlPath);","if _, err := os.Stat(path.Join(home, \"config.yml\"));")]),
("c18-create","C18",[(F,'''			numShares, err := strconv.Atoi(args[0])
''','''			f, err := os.OpenFile(path.Join(home, "config.yaml"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
			if err != nil {
				return err
			}
			f.Close()
			numShares, err := strconv.Atoi(args[0])
''')]),
("c18-sharesfirst","C18",[(F,'''			if err := validateCosignerPeers(config.CosignerConfig.Peers, numShares); err != nil {
				return err
			}

			config.CosignerConfig.Shares = numShares
''','''			config.CosignerConfig.Shares = numShares
			if err := validateCosignerPeers(config.CosignerConfig.Peers, numShares); err != nil {
				return err
			}

''')]),
("c18-singlenodes","C18",[(F,'''	if len(cfg.ChainNodes) == 0 {
		return fmt.Errorf("need to have a node configured to sign for")
	}
	if err := validateChainNodes(cfg.ChainNodes); err != nil {
		return err
	}
	return nil''','''	if len(cfg.ChainNodes) == 0 {
		return fmt.Errorf("need to have a node configured to sign for")
	}
	return nil'''),(F,'''	cn := parseChainNodes(arg)
	return cn, validateChainNodes(cn)''','''	return parseChainNodes(arg), nil''')]),
("c18-b-indexloop","=C18",[(F,'''	for _, peer := range peers {
		if peer.ShareID < 1 || peer.ShareID > shares {
			return fmt.Errorf("peer ID %v in args is out of range, must be between 1 and %v",
				peer.ShareID, shares)
		}
	}
''','''	for i := 0; i < len(peers); i++ {
		id := peers[i].ShareID
		if !(1 <= id && id <= shares) {
			return fmt.Errorf("peer ID %v in args is out of range, must be between 1 and %v",
				id, shares)
		}
	}
''')]),
("c18-b-dupbool","=C18",[(F,'''	encountered := make(map[int]string)
	for _, peer := range peers {
		if _, found := encountered[peer.ShareID]; !found {
			encountered[peer.ShareID] = peer.P2PAddr
		} else {
			duplicates = append(duplicates, CosignerPeer{peer.ShareID, peer.P2PAddr})
		}
	}
''','''	encountered := map[int]bool{}
	for _, peer := range peers {
		if encountered[peer.ShareID] {
			duplicates = append(duplicates, peer)
			continue
		}
		encountered[peer.ShareID] = true
	}
''')]),
("c18-b-order","=C18",[(F,'''	if len(peers) >= shares {
		return fmt.Errorf("too many peers (%v+local node = %v) for the specified number of key shares (%v)",
			len(peers), len(peers)+1, shares)
	}
	return nil
}''','''	return nil
}'''),(F,'''	// Check IDs to make sure none are duplicated
''','''	if len(peers)+1 > shares {
		return fmt.Errorf("too many peers (%v+local node = %v) for the specified number of key shares (%v)",
			len(peers), len(peers)+1, shares)
	}
	// Check IDs to make sure none are duplicated
''')]),
("c18-b-helper","=C18",[(F,'''			config.CosignerConfig.Shares = numShares
			if err := writeConfigFile(path.Join(home, "config.yaml"), config); err != nil {
				return err
			}
			return nil
''','''			config.CosignerConfig.Shares = numShares
			return storeConfig(home)
'''),(F,'''func validateSingleSignerConfig(''','''func storeConfig(home string) error {
	return writeConfigFile(path.Join(home, "config.yaml"), config)
}

func validateSingleSignerConfig(''')]),
("c18-b-exists","=C18",[(F,'''			if _, err := os.Stat(configYamlPath); !os.IsNotExist(err) && !overwrite {
				return fmt.Errorf(''','''			_, statErr := os.Stat(configYamlPath)
			exists := !os.IsNotExist(statErr)
			if exists && !overwrite {
				return fmt.Errorf(''')]),
("c18-b-nodesloop","=C18",[(F,'''func validateChainNodes(nodes []ChainNode) (err error) {
	for _, n := range nodes {
		if _, err = url.Parse(n.PrivValAddr); err != nil {
			return
		}
	}
	return
}''','''func validateChainNodes(nodes []ChainNode) error {
	for i := range nodes {
		if err := validateChainNode(nodes[i]); err != nil {
			return err
		}
	}
	return nil
}

func validateChainNode(n ChainNode) error {
	_, err := url.Parse(n.PrivValAddr)
	return err
}''')]),
("c18-b-difftoMap","=C18",[(F,'''	for _, a := range setA {
		found := false
		for _, b := range setB {
			if a == b {
				found = true
			}
		}
		if !found {
			diff = append(diff, a)
		}
	}
	return
}

var chainIDCmd''','''	known := make(map[CosignerPeer]struct{}, len(setB))
	for _, b := range setB {
		known[b] = struct{}{}
	}
	for _, a := range setA {
		if _, ok := known[a]; !ok {
			diff = append(diff, a)
		}
	}
	return diff
}

var chainIDCmd''')]),
]
