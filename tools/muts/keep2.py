# behaviour-preserving refactorings of commands, sentry loop, wire code and files: every check has to stay quiet
CF="cmd/horcrux/cmd/config.go"; CO="cmd/horcrux/cmd/cosigner.go"; SI="cmd/horcrux/cmd/signer.go"; ST="cmd/horcrux/cmd/state.go"; K2="cmd/horcrux/cmd/key2shares.go"
RM="signer/remote_signer.go"; RC="signer/remote_cosigner.go"; CG="signer/Cosigner.go"; GS="signer/grpc_server.go"; G2="signer/cosigner_grpc_server.go"
CK="signer/cosigner_key.go"; CS="signer/cosigner_key_shares.go"; SE="signer/Serialization.go"; SV="signer/services.go"; PG="signer/PvGuard.go"; RE="signer/raft_events.go"; RS="signer/raft_store.go"
CMD="=C17,C18,C19,C20,C25,C26,C27,C16,C23,C28,C11,C01,C03"
SEN="=C15,C16,C21,C22,C23,C24,C25,C07,C11"
WIR="=C14,C21,C23,C02,C06,C07,C08,C10,C11,C12,C22,C29"
KEY="=C11,C19,C20,C28"
M=[
("p-home",CMD,[(CF,"""			argNodes, err := chainNodesFromArg(args[0])
			if err != nil {
				return err
			}
			diff := diffSetChainNode(argNodes,""","""			configFile := path.Join(home, "config.yaml")

			argNodes, err := chainNodesFromArg(args[0])
			if err != nil {
				return err
			}
			diff := diffSetChainNode(argNodes,"""),(CF,"""			diff = append(config.ChainNodes, diff...)
			if err := validateChainNodes(diff); err != nil {
				return err
			}

			config.ChainNodes = diff
			if err := writeConfigFile(path.Join(home, "config.yaml"), config); err != nil {
				return err
			}
			return nil
""","""			nodes := make([]ChainNode, 0, len(config.ChainNodes)+len(diff))
			nodes = append(nodes, config.ChainNodes...)
			nodes = append(nodes, diff...)
			if err := validateChainNodes(nodes); err != nil {
				return err
			}

			config.ChainNodes = nodes
			return writeConfigFile(configFile, config)
""")]),
("p-homefn",CMD,[(CF,"""			var home string // In root.go we end up with our
			if homeDir != "" {
				home = homeDir
			} else {
				home, _ = homedir.Dir()
				home = path.Join(home, ".horcrux")
			}

			stateDir := path.Join(home, "state")
			pvOldPath""","""			home := horcruxHome()
			stateDir := path.Join(home, "state")
			pvOldPath"""),(CF,"""type Config struct {
""","""func horcruxHome() string {
	if homeDir != "" {
		return homeDir
	}
	home, _ := homedir.Dir()
	return path.Join(home, ".horcrux")
}

type Config struct {
""")]),
("p-homefn-all",CMD,[(CF,"""			var home string // In root.go we end up with our
			if homeDir != "" {
				home = homeDir
			} else {
				home, _ = homedir.Dir()
				home = path.Join(home, ".horcrux")
			}

			configYamlPath""","""			home := horcruxHome()

			configYamlPath"""),(CF,"""			var home string // In root.go we end up with our
			if homeDir != "" {
				home = homeDir
			} else {
				home, _ = homedir.Dir()
				home = path.Join(home, ".horcrux")
			}

			argPeers, err := peersFromFlag(args[0])""","""			home := horcruxHome()

			argPeers, err := peersFromFlag(args[0])"""),(ST,"""			var stateDir string // In root.go we end up with our
			if homeDir != "" {
				stateDir = path.Join(homeDir, "state")
			} else {
				home, _ := homedir.Dir()
				stateDir = path.Join(home, ".horcrux", "state")
			}

			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
			pv, err := signer.LoadSignState(filepath)
			if err != nil {
				return err
			}

			filepath = path.Join(stateDir, config.ChainID+"_share_sign_state.json")
			share, err := signer.LoadSignState(filepath)
			if err != nil {
				return err
			}

			height, err""","""			stateDir := path.Join(horcruxHome(), "state")

			pv, err := signer.LoadSignState(path.Join(stateDir, config.ChainID+"_priv_validator_state.json"))
			if err != nil {
				return err
			}

			share, err := signer.LoadSignState(path.Join(stateDir, config.ChainID+"_share_sign_state.json"))
			if err != nil {
				return err
			}

			height, err"""),(CF,"""type Config struct {
""","""func horcruxHome() string {
	home := homeDir
	if home == "" {
		dir, _ := homedir.Dir()
		home = path.Join(dir, ".horcrux")
	}
	return home
}

type Config struct {
""")]),
("p-statenames",CMD,[(CF,"""			pvOldPath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
			pvNewPath := path.Join(stateDir, args[0]+"_priv_validator_state.json")
			shareOldPath := path.Join(stateDir, config.ChainID+"_share_sign_state.json")
			shareNewPath := path.Join(stateDir, args[0]+"_share_sign_state.json")
""","""			pvOldPath, shareOldPath := stateFiles(stateDir, config.ChainID)
			pvNewPath, shareNewPath := stateFiles(stateDir, args[0])
"""),(CF,"""type Config struct {
""","""// stateFiles returns the paths of the sign state files of a chain.
func stateFiles(dir, chainID string) (pv, share string) {
	return path.Join(dir, fmt.Sprintf("%s_priv_validator_state.json", chainID)),
		path.Join(dir, fmt.Sprintf("%s_share_sign_state.json", chainID))
}

type Config struct {
""")]),
("p-statenames-init",CMD,[(CF,"""			if _, err = signer.LoadOrCreateSignState(
				path.Join(home, "state", fmt.Sprintf("%s_priv_validator_state.json", cid))); err != nil {
				return err
			}
""","""			stateDir := path.Join(home, "state")
			pvStateFile := path.Join(stateDir, cid+"_priv_validator_state.json")
			if _, err = signer.LoadOrCreateSignState(pvStateFile); err != nil {
				return err
			}
"""),(CF,"""				if _, err = signer.LoadOrCreateSignState(
					path.Join(home, "state", fmt.Sprintf("%s_share_sign_state.json", cid))); err != nil {
					return err
				}
""","""				shareStateFile := path.Join(stateDir, cid+"_share_sign_state.json")
				_, err = signer.LoadOrCreateSignState(shareStateFile)
				if err != nil {
					return fmt.Errorf("share sign state: %v", err)
				}
""")]),
("p-init-split",CMD,[(CF,"""				p, _ := cmdFlags.GetString("peers")
				threshold, _ := cmdFlags.GetInt("threshold")
				timeout, _ := cmdFlags.GetString("timeout")
				peers, err := peersFromFlag(p)
				if err != nil {
					return err
				}

				listen, _ := cmdFlags.GetString("listen")
				if listen == "" {
					return errors.New("must input at least one node")
				}
				url, err := url.Parse(listen)
				if err != nil {
					return fmt.Errorf("error parsing listen address: %s, %v", listen, err)
				}
				host, _, err := net.SplitHostPort(url.Host)
				if err != nil {
					return err
				}
				if host == "0.0.0.0" {
					return errors.New("host cannot be 0.0.0.0, must be reachable from other peers")
				}
""","""				p, _ := cmdFlags.GetString("peers")
				threshold, _ := cmdFlags.GetInt("threshold")
				timeout, _ := cmdFlags.GetString("timeout")
				peers, err := peersFromFlag(p)
				if err != nil {
					return err
				}

				listen, _ := cmdFlags.GetString("listen")
				if err := checkListenAddress(listen); err != nil {
					return err
				}
"""),(CF,"""func writeConfigFile(""","""func checkListenAddress(listen string) error {
	if listen == "" {
		return errors.New("must input at least one node")
	}
	url, err := url.Parse(listen)
	if err != nil {
		return fmt.Errorf("error parsing listen address: %s, %v", listen, err)
	}
	host, _, err := net.SplitHostPort(url.Host)
	if err != nil {
		return err
	}
	if host == "0.0.0.0" {
		return errors.New("host cannot be 0.0.0.0, must be reachable from other peers")
	}
	return nil
}

func writeConfigFile(""")]),
("p-init-cfg",CMD,[(CF,"""				cfg = &Config{
					HomeDir:        home,
					PrivValKeyFile: keyFile,
					ChainID:        cid,
					CosignerConfig: &CosignerConfig{
						Threshold: threshold,
						Shares:    len(peers) + 1,
						P2PListen: listen,
						Peers:     peers,
						Timeout:   timeout,
					},
					ChainNodes: cn,
				}
				if err = validateCosignerConfig(cfg); err != nil {
					return err
				}
""","""				cfg = &Config{HomeDir: home, PrivValKeyFile: keyFile, ChainID: cid, ChainNodes: cn}
				cfg.CosignerConfig = &CosignerConfig{Threshold: threshold, P2PListen: listen, Timeout: timeout}
				cfg.CosignerConfig.Peers = peers
				cfg.CosignerConfig.Shares = len(peers) + 1
				err = validateCosignerConfig(cfg)
				if err != nil {
					return err
				}
""")]),
("p-init-overwrite",CMD,[(CF,"""			if _, err := os.Stat(configYamlPath); !os.IsNotExist(err) && !overwrite {
				return fmt""","""			_, statErr := os.Stat(configYamlPath)
			exists := !os.IsNotExist(statErr)
			if exists && !overwrite {
				return fmt""")]),
("p-validate-peers",CMD,[(CF,"""	// Check IDs to make sure none are duplicated
	if dupl := duplicatePeers(peers); len(dupl) != 0 {
		return fmt.Errorf("found duplicate share IDs in args: %v", dupl)
	}

	// Make sure that the peers' IDs match the number of shares.
	for _, peer := range peers {
		if peer.ShareID < 1 || peer.ShareID > shares {
			return fmt.Errorf("peer ID %v in args is out of range, must be between 1 and %v",
				peer.ShareID, shares)
		}
	}
""","""	// Make sure that the peers' IDs match the number of shares.
	for i := range peers {
		id := peers[i].ShareID
		if id >= 1 && id <= shares {
			continue
		}
		return fmt.Errorf("peer ID %v in args is out of range, must be between 1 and %v", id, shares)
	}

	// Check IDs to make sure none are duplicated
	dupl := duplicatePeers(peers)
	if len(dupl) > 0 {
		return fmt.Errorf("found duplicate share IDs in args: %v", dupl)
	}
""")]),
("p-duplicates",CMD,[(CF,"""	encountered := make(map[int]string)
	for _, peer := range peers {
		if _, found := encountered[peer.ShareID]; !found {
			encountered[peer.ShareID] = peer.P2PAddr
		} else {
			duplicates = append(duplicates, CosignerPeer{peer.ShareID, peer.P2PAddr})
		}
	}
	return
""","""	encountered := make(map[int]bool, len(peers))
	for _, peer := range peers {
		if encountered[peer.ShareID] {
			duplicates = append(duplicates, peer)
			continue
		}
		encountered[peer.ShareID] = true
	}
	return duplicates
""")]),
("p-diffset",CMD,[(CF,"""func diffSetCosignerPeer(setA, setB []CosignerPeer) (diff []CosignerPeer) {
	for _, a := range setA {
		found := false
		for _, b := range setB {
			if a == b {
				found = true
			}
		}
		if !found {
			diff = append(diff, a)
		}
	}
	return
}
""","""func diffSetCosignerPeer(setA, setB []CosignerPeer) (diff []CosignerPeer) {
	for _, a := range setA {
		if !hasPeer(setB, a) {
			diff = append(diff, a)
		}
	}
	return diff
}

func hasPeer(set []CosignerPeer, peer CosignerPeer) bool {
	for _, p := range set {
		if p == peer {
			return true
		}
	}
	return false
}
""")]),
("p-removepeers",CMD,[(CF,"""			var argPeers []CosignerPeer
			for _, peer := range config.CosignerConfig.Peers {
				for _, id := range strings.Split(args[0], ",") {
					id, err := strconv.Atoi(id)
					if err != nil {
						return err
					}
					if peer.ShareID == id {
						argPeers = append(argPeers, peer)
					}
				}
			}

			diff := diffSetCosignerPeer(config.CosignerConfig.Peers, argPeers)
""","""			ids := strings.Split(args[0], ",")
			var diff []CosignerPeer
			for _, peer := range config.CosignerConfig.Peers {
				keep := true
				for _, arg := range ids {
					id, err := strconv.Atoi(arg)
					if err != nil {
						return err
					}
					if peer.ShareID == id {
						keep = false
					}
				}
				if keep {
					diff = append(diff, peer)
				}
			}
""")]),
("p-setshares",CMD,[(CF,"""			if err := validateCosignerPeers(config.CosignerConfig.Peers, numShares); err != nil {
				return err
			}

			config.CosignerConfig.Shares = numShares
			if err := writeConfigFile(path.Join(home, "config.yaml"), config); err != nil {
				return err
			}
			return nil
""","""			cosignerConfig := config.CosignerConfig
			err = validateCosignerPeers(cosignerConfig.Peers, numShares)
			if err == nil {
				cosignerConfig.Shares = numShares
				err = writeConfigFile(path.Join(home, "config.yaml"), config)
			}
			return err
""")]),
("p-validatecfg",CMD,[(CF,"""	if len(cfg.CosignerConfig.Peers)+1 < cfg.CosignerConfig.Threshold {
		return fmt.Errorf("number of peers + 1 (%d) must be greater than threshold (%d)",
			len(cfg.CosignerConfig.Peers)+1, cfg.CosignerConfig.Threshold)
	}

	_, err := time.ParseDuration(cfg.CosignerConfig.Timeout)
	if err != nil {
		return fmt.Errorf("%s is not a valid duration string for --timeout ", cfg.CosignerConfig.Timeout)
	}
""","""	cosigners := len(cfg.CosignerConfig.Peers) + 1
	if cfg.CosignerConfig.Threshold > cosigners {
		return fmt.Errorf("number of peers + 1 (%d) must be greater than threshold (%d)", cosigners, cfg.CosignerConfig.Threshold)
	}
	if _, err := time.ParseDuration(cfg.CosignerConfig.Timeout); err != nil {
		return fmt.Errorf("%s is not a valid duration string for --timeout ", cfg.CosignerConfig.Timeout)
	}
"""),(CF,"""	if err := validateChainNodes(cfg.ChainNodes); err != nil {
		return err
	}
	return nil
}

var nodesCmd""","""	return validateChainNodes(cfg.ChainNodes)
}

var nodesCmd""")]),
("p-parsenodes",CMD,[(CF,"""	for _, n := range strings.Split(nodes, ",") {
		out = append(out, ChainNode{PrivValAddr: n})
	}
	return
""","""	addrs := strings.Split(nodes, ",")
	out = make([]ChainNode, len(addrs))
	for i, addr := range addrs {
		out[i].PrivValAddr = addr
	}
	return out
""")]),
("p-nodes",CMD,[(CF,"""func (c *Config) Nodes() (out []signer.NodeConfig) {
	for _, n := range c.ChainNodes {
		out = append(out, signer.NodeConfig{Address: n.PrivValAddr})
	}
	return
}
""","""func (c *Config) Nodes() []signer.NodeConfig {
	out := make([]signer.NodeConfig, 0, len(c.ChainNodes))
	for i := range c.ChainNodes {
		node := signer.NodeConfig{Address: c.ChainNodes[i].PrivValAddr}
		out = append(out, node)
	}
	return out
}
"""),(CF,"""func (c *Config) CosignerPeers() (out []signer.CosignerConfig) {
	for _, p := range c.CosignerConfig.Peers {
		out = append(out, signer.CosignerConfig{ID: p.ShareID, Address: p.P2PAddr})
	}
	return
}
""","""func (c *Config) CosignerPeers() []signer.CosignerConfig {
	peers := c.CosignerConfig.Peers
	out := make([]signer.CosignerConfig, len(peers))
	for i, p := range peers {
		out[i] = signer.CosignerConfig{
			ID:      p.ShareID,
			Address: p.P2PAddr,
		}
	}
	return out
}
""")]),
("p-chainid-helper",CMD,[(CF,"""			if _, err = os.Stat(pvNewPath); !os.IsNotExist(err) {
				return fmt.Errorf("cannot move the sign state, %s already exists", pvNewPath)
			}
			if isCosigner {
				if _, err = os.Stat(shareNewPath); !os.IsNotExist(err) {
					return fmt.Errorf("cannot move the sign state, %s already exists", shareNewPath)
				}
			}
""","""			if err = mustNotExist(pvNewPath); err != nil {
				return err
			}
			if isCosigner {
				if err = mustNotExist(shareNewPath); err != nil {
					return err
				}
			}
"""),(CF,"""type Config struct {
""","""func mustNotExist(file string) error {
	if _, err := os.Stat(file); !os.IsNotExist(err) {
		return fmt.Errorf("cannot move the sign state, %s already exists", file)
	}
	return nil
}

type Config struct {
""")]),
("p-stateset",CMD,[(ST,"""			if err := pv.Save(signState, nil); err != nil {
				return fmt.Errorf("priv validator state: %w", err)
			}
			if err := share.Save(signState, nil); err != nil {
				return fmt.Errorf("share sign state: %w", err)
			}
			return nil
""","""			if err := pv.Save(signState, nil); err != nil {
				return fmt.Errorf("priv validator state: %w", err)
			}
			err = share.Save(signState, nil)
			if err != nil {
				err = fmt.Errorf("share sign state: %w", err)
			}
			return err
"""),(ST,"""			signState := signer.SignStateConsensus{
				Height:    height,
				Round:     0,
				Step:      0,
				Signature: nil,
				SignBytes: nil,
			}
""","""			signState := signer.NewSignStateConsensus(height, 0, 0)
""")]),
("p-stateset-load",CMD,[(ST,"""			height, err := strconv.ParseInt(args[0], 10, 64)
			if err != nil {
				return err
			}

			pv.Eph""","""			pv.Eph"""),(ST,"""			// Resetting the priv_validator_state.json should only be allowed if the
""","""			height, err := strconv.ParseInt(args[0], 10, 64)
			if err != nil {
				return err
			}

			// Resetting the priv_validator_state.json should only be allowed if the
""")]),
("p-isrunning",CMD,[(ST,"""	for _, pid := range strings.Fields(string(bz)) {
		// this very command is a horcrux process too
		if pid != strconv.Itoa(os.Getpid()) {
			return true
		}
	}
	return false
""","""	self := strconv.Itoa(os.Getpid())
	others := 0
	for _, pid := range strings.Fields(string(bz)) {
		// this very command is a horcrux process too
		if pid == self {
			continue
		}
		others++
	}
	return others > 0
""")]),
("p-showstate",CMD,[(ST,"""			fmt.Println("Private Validator State:")
			printSignState(pv)
			fmt.Println("Share Sign State:")
			printSignState(share)
			return nil
""","""			for _, s := range []struct {
				title string
				state signer.SignState
			}{{"Private Validator State:", pv}, {"Share Sign State:", share}} {
				fmt.Println(s.title)
				printSignState(s.state)
			}
			return nil
""")]),
("p-start-keyfile",CMD,[(CO,"""			var privValKeyFile string
			if config.PrivValKeyFile == "" {
				privValKeyFile = path.Join(config.HomeDir, "share.json")
			} else {
				privValKeyFile = config.PrivValKeyFile
			}

			cfg = signer.Config{""","""			cfg = signer.Config{"""),(CO,"""				PrivValKeyFile:    privValKeyFile,
				PrivVal""","""				PrivValKeyFile:    shareKeyFile(config),
				PrivVal"""),(CO,"""func StartCosignerCmd() *cobra.Command {
""","""func shareKeyFile(config *Config) string {
	if config.PrivValKeyFile != "" {
		return config.PrivValKeyFile
	}
	return path.Join(config.HomeDir, "share.json")
}

func StartCosignerCmd() *cobra.Command {
""")]),
("p-start-state",CMD,[(CO,"""			stateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_priv_validator_state.json", chainID))
			signState, err := signer.LoadOrCreateSignState(stateFile)
			if err != nil {
				panic(err)
			}

			// state for our cosigner share
			// Not automatically initialized on disk to avoid double sign risk
			shareStateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_share_sign_state.json", chainID))
			shareSignState, err := signer.LoadSignState(shareStateFile)
			if err != nil {
				panic(err)
			}
""","""			signState, shareSignState, err := loadStates(cfg.PrivValStateDir, chainID)
			if err != nil {
				return err
			}
"""),(CO,"""func StartCosignerCmd() *cobra.Command {
""","""func loadStates(dir, chainID string) (pv, share signer.SignState, err error) {
	pv, err = signer.LoadOrCreateSignState(path.Join(dir, fmt.Sprintf("%s_priv_validator_state.json", chainID)))
	if err != nil {
		return pv, share, err
	}
	// Not automatically initialized on disk to avoid double sign risk
	share, err = signer.LoadSignState(path.Join(dir, fmt.Sprintf("%s_share_sign_state.json", chainID)))
	return pv, share, err
}

func StartCosignerCmd() *cobra.Command {
""")]),
("p-start-peers",CMD,[(CO,"""			cosigners := []signer.Cosigner{}

			// add ourselves as a peer so localcosigner can handle GetEphSecPart requests
			peers := []signer.CosignerPeer{{
				ID:        key.ID,
				PublicKey: key.RSAKey.PublicKey,
			}}

			for _, cosignerConfig := range cfg.Cosigners {
				cosigner := signer.NewRemoteCosigner(cosignerConfig.ID, cosignerConfig.Address)
				cosigners = append(cosigners, cosigner)

				if cosignerConfig.ID < 1 || cosignerConfig.ID > len(key.CosignerKeys) ||
					cosignerConfig.ID > total || cosignerConfig.ID == key.ID {
					log.Fatalf("Unexpected cosigner ID %d", cosignerConfig.ID)
				}

				pubKey := key.CosignerKeys[cosignerConfig.ID-1]
				peers = append(peers, signer.CosignerPeer{
					ID:        cosigner.GetID(),
					PublicKey: *pubKey,
				})
			}
""","""			cosigners, peers, err := connectPeers(key, cfg.Cosigners, total)
			if err != nil {
				return err
			}
"""),(CO,"""func StartCosignerCmd() *cobra.Command {
""","""func connectPeers(
	key signer.CosignerKey, configs []signer.CosignerConfig, total int) ([]signer.Cosigner, []signer.CosignerPeer, error) {
	cosigners := []signer.Cosigner{}

	// add ourselves as a peer so localcosigner can handle GetEphSecPart requests
	peers := []signer.CosignerPeer{{ID: key.ID, PublicKey: key.RSAKey.PublicKey}}

	for _, cosignerConfig := range configs {
		id := cosignerConfig.ID
		if id < 1 || id > len(key.CosignerKeys) || id > total || id == key.ID {
			return nil, nil, fmt.Errorf("unexpected cosigner ID %d", id)
		}
		cosigners = append(cosigners, signer.NewRemoteCosigner(id, cosignerConfig.Address))
		peers = append(peers, signer.CosignerPeer{ID: id, PublicKey: *key.CosignerKeys[id-1]})
	}
	return cosigners, peers, nil
}

func StartCosignerCmd() *cobra.Command {
""")]),
("p-start-order",CMD,[(CO,"""			pv = &signer.PvGuard{PrivValidator: val}

			pubkey, err := pv.GetPubKey()
			if err != nil {
				log.Fatal(err)
			}
			logger.Info("Signer", "address", pubkey.Address())

			services""","""			services"""),(CO,"""			// Start RAFT store listener, now that everything it serves is in place
""","""			pv = &signer.PvGuard{PrivValidator: val}

			pubkey, err := pv.GetPubKey()
			if err != nil {
				log.Fatal(err)
			}
			logger.Info("Signer", "address", pubkey.Address())

			// Start RAFT store listener, now that everything it serves is in place
""")]),
("p-start-local",CMD,[(CO,"""			localCosignerConfig := signer.LocalCosignerConfig{
				CosignerKey: key,
				SignState:   &shareSignState,
				RsaKey:      key.RSAKey,
				Address:     cfg.ListenAddress,
				Peers:       peers,
				Total:       uint8(total),
				Threshold:   uint8(cfg.CosignerThreshold),
			}

			localCosigner := signer.NewLocalCosigner(localCosignerConfig)
""","""			var localCosignerConfig signer.LocalCosignerConfig
			localCosignerConfig.CosignerKey = key
			localCosignerConfig.SignState = &shareSignState
			localCosignerConfig.RsaKey = key.RSAKey
			localCosignerConfig.Address = cfg.ListenAddress
			localCosignerConfig.Peers = peers
			localCosignerConfig.Total = uint8(total)
			localCosignerConfig.Threshold = uint8(cfg.CosignerThreshold)
			localCosigner := signer.NewLocalCosigner(localCosignerConfig)
"""),(CO,"""			val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{""","""			thresholdValidator := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{"""),(CO,"""			raftStore.SetThresholdValidator(val.(*signer.ThresholdValidator))
""","""			val = thresholdValidator
			raftStore.SetThresholdValidator(thresholdValidator)
""")]),
("p-start-signer",CMD,[(SI,"""			pv = &signer.PvGuard{PrivValidator: val}

			pubkey, err := pv.GetPubKey()
			if err != nil {
				log.Fatal(err)
			}
			logger.Info("Signer", "pubkey", pubkey)

			services, err = signer.StartRemoteSigners(services, logger, cfg.ChainID, pv, cfg.Nodes)
			if err != nil {
				panic(err)
			}

			signer.WaitAndTerminate(logger, services)

			return nil
""","""			pv = &signer.PvGuard{PrivValidator: val}
			return serve(logger, chainID, pv, cfg.Nodes)
"""),(SI,"""				services []tmService.Service
				pv ""","""				pv """),(SI,"""				// services to stop on shutdown
""",""),(SI,"""	tmService "github.com/tendermint/tendermint/libs/service"
""",""),(SI,"""func StartSignerCmd() *cobra.Command {
""","""func serve(logger tmlog.Logger, chainID string, pv types.PrivValidator, nodes []signer.NodeConfig) error {
	pubkey, err := pv.GetPubKey()
	if err != nil {
		log.Fatal(err)
	}
	logger.Info("Signer", "pubkey", pubkey)

	// services to stop on shutdown
	services, err := signer.StartRemoteSigners(nil, logger, chainID, pv, nodes)
	if err != nil {
		panic(err)
	}

	signer.WaitAndTerminate(logger, services)

	return nil
}

func StartSignerCmd() *cobra.Command {
""")]),
("p-loadfilepv",CMD,[(SI,"""	info, err := os.Stat(stateFile)
	if os.IsNotExist(err) || (err == nil && info.Size() == 0) {
		return privval.LoadFilePVEmptyState(keyFile, stateFile), nil
	}
	if err != nil {
		return nil, err
	}
""","""	info, err := os.Stat(stateFile)
	switch {
	case os.IsNotExist(err):
		return privval.LoadFilePVEmptyState(keyFile, stateFile), nil
	case err != nil:
		return nil, err
	case info.Size() == 0:
		return privval.LoadFilePVEmptyState(keyFile, stateFile), nil
	}
""")]),
("p-createshares",CMD+",C20,C28",[(K2,"""			for _, c := range csKeys {
				if err = signer.WriteCosignerShareFile(c, fmt.Sprintf("private_share_%d.json", c.ID)); err != nil {
					return err
				}
				fmt.Printf("Created Share %d\\n", c.ID)
			}
			return nil
""","""			for i := range csKeys {
				c := csKeys[i]
				file := fmt.Sprintf("private_share_%d.json", c.ID)
				err = signer.WriteCosignerShareFile(c, file)
				if err != nil {
					return err
				}
				fmt.Printf("Created Share %d\\n", c.ID)
			}
			return nil
""")]),
("p-keyshares",KEY,[(CS,"""	for idx, share := range privshares {
		out = append(out, CosignerKey{
			PubKey:       pv.PubKey,
			ShareKey:     share,
			ID:           idx + 1,
			RSAKey:       *rsaKeys[idx],
			CosignerKeys: pubKeys,
		})
	}
	return
""","""	out = make([]CosignerKey, len(privshares))
	for i := range privshares {
		out[i] = CosignerKey{
			PubKey:       pv.PubKey,
			ShareKey:     privshares[i],
			ID:           i + 1,
			RSAKey:       *rsaKeys[i],
			CosignerKeys: pubKeys,
		}
	}
	return out, nil
""")]),
# known limitation: elements of a list that is counted by its own length are not told apart
("p-rsakeys-limit",KEY,[(CS,"""	rsaKeys = make([]*rsa.PrivateKey, num)
	pubKeys = make([]*rsa.PublicKey, num)
	for i := 0; i < num; i++ {
		bitSize := 4096
		rsaKey, err := rsa.GenerateKey(rand.Reader, bitSize)
		if err != nil {
			return rsaKeys, pubKeys, err
		}
		rsaKeys[i] = rsaKey
		pubKeys[i] = &rsaKey.PublicKey
	}
	return
""","""	const bitSize = 4096
	for len(rsaKeys) < num {
		rsaKey, err := rsa.GenerateKey(rand.Reader, bitSize)
		if err != nil {
			return nil, nil, err
		}
		rsaKeys = append(rsaKeys, rsaKey)
		pubKeys = append(pubKeys, &rsaKey.PublicKey)
	}
	return rsaKeys, pubKeys, nil
""")]),
("p-writeshare",KEY,[(CS,"""	jsonBytes, err := json.Marshal(&cosigner)
	if err != nil {
		return err
	}
	return ioutil.WriteFile(file, jsonBytes, 0600)
""","""	const ownerOnly = 0600
	if jsonBytes, err := json.Marshal(&cosigner); err == nil {
		return ioutil.WriteFile(file, jsonBytes, ownerOnly)
	} else {
		return err
	}
""")]),
("p-marshalkey",KEY,[(CK,"""	rsaPubKeysBytes := make([][]byte, 0)
	for _, pubKey := range cosignerKey.CosignerKeys {
		publicBytes := x509.MarshalPKCS1PublicKey(pubKey)
		rsaPubKeysBytes = append(rsaPubKeysBytes, publicBytes)
	}
""","""	rsaPubKeysBytes := make([][]byte, len(cosignerKey.CosignerKeys))
	for i, pubKey := range cosignerKey.CosignerKeys {
		rsaPubKeysBytes[i] = x509.MarshalPKCS1PublicKey(pubKey)
	}
""")]),
("p-unmarshalkey",KEY,[(CK,"""	cosignerKey.CosignerKeys = make([]*rsa.PublicKey, 0)
	for _, bytes := range aux.CosignerKeys {
		cosignerRsaPubkey, err := x509.ParsePKCS1PublicKey(bytes)
		if err != nil {
			return err
		}
		cosignerKey.CosignerKeys = append(cosignerKey.CosignerKeys, cosignerRsaPubkey)
	}

	cosignerKey.RSAKey = *privateKey
	cosignerKey.PubKey = pubkey
	return nil
""","""	keys, err := parsePublicKeys(aux.CosignerKeys)
	if err != nil {
		return err
	}

	cosignerKey.CosignerKeys = keys
	cosignerKey.RSAKey = *privateKey
	cosignerKey.PubKey = pubkey
	return nil
"""),(CK,"""// LoadCosignerKey loads""","""func parsePublicKeys(encoded [][]byte) ([]*rsa.PublicKey, error) {
	keys := make([]*rsa.PublicKey, 0, len(encoded))
	for _, bytes := range encoded {
		key, err := x509.ParsePKCS1PublicKey(bytes)
		if err != nil {
			return nil, err
		}
		keys = append(keys, key)
	}
	return keys, nil
}

// LoadCosignerKey loads""")]),
("p-unmarshalkey2",KEY,[(CK,"""	if err != nil {
		var pub tmEd25519.PubKey
		codec := amino.NewCodec()
		codec.RegisterInterface((*tmCrypto.PubKey)(nil), nil)
		codec.RegisterConcrete(tmEd25519.PubKey{}, "tendermint/PubKeyEd25519", nil)
		errInner := codec.UnmarshalBinaryBare(aux.PubkeyBytes, &pub)
		if errInner != nil {
			return err
		}
		pubkey = pub
	} else {
		pubkey, err = tmCryptoEncoding.PubKeyFromProto(protoPubkey)
		if err != nil {
			return err
		}
	}
""","""	if err == nil {
		if pubkey, err = tmCryptoEncoding.PubKeyFromProto(protoPubkey); err != nil {
			return err
		}
	} else {
		codec := amino.NewCodec()
		codec.RegisterInterface((*tmCrypto.PubKey)(nil), nil)
		codec.RegisterConcrete(tmEd25519.PubKey{}, "tendermint/PubKeyEd25519", nil)
		var pub tmEd25519.PubKey
		if codec.UnmarshalBinaryBare(aux.PubkeyBytes, &pub) != nil {
			return err
		}
		pubkey = pub
	}
""")]),
("p-loadkey",KEY+",C17,C25",[(CK,"""	pvKey := CosignerKey{}
	keyJSONBytes, err := ioutil.ReadFile(file)
	if err != nil {
		return pvKey, err
	}

	err = json.Unmarshal(keyJSONBytes, &pvKey)
	if err != nil {
		return pvKey, err
	}

	return pvKey, nil
""","""	var pvKey CosignerKey
	keyJSONBytes, err := ioutil.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(keyJSONBytes, &pvKey)
	}
	return pvKey, err
""")]),
("s-loop-dial",SEN,[(RM,"""		for conn == nil {
			proto, address := tmNet.ProtocolAndAddress(rs.address)
			netConn, err := rs.dialer.Dial(proto, address)
			if err != nil {
				rs.Logger.Error("Dialing", "err", err)
				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
				time.Sleep(time.Second * 3)
				continue
			}

			rs.Logger.Info("Connected", "address", rs.address)
			conn, err = tmP2pConn.MakeSecretConnection(netConn, rs.privKey)
			if err != nil {
				conn = nil
				netConn.Close()
				rs.Logger.Error("Secret Conn", "err", err)
				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
				time.Sleep(time.Second * 3)
				continue
			}
		}
""","""		for conn == nil {
			var err error
			if conn, err = rs.dial(); err != nil {
				conn = nil
				rs.Logger.Error("Dialing", "err", err)
				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
				time.Sleep(time.Second * 3)
			}
		}
"""),(RM,"""func (rs *ReconnRemoteSigner) handleRequest(""","""func (rs *ReconnRemoteSigner) dial() (net.Conn, error) {
	proto, address := tmNet.ProtocolAndAddress(rs.address)
	netConn, err := rs.dialer.Dial(proto, address)
	if err != nil {
		return nil, err
	}

	rs.Logger.Info("Connected", "address", rs.address)
	conn, err := tmP2pConn.MakeSecretConnection(netConn, rs.privKey)
	if err != nil {
		netConn.Close()
		return nil, fmt.Errorf("secret conn: %w", err)
	}
	return conn, nil
}

func (rs *ReconnRemoteSigner) handleRequest(""")]),
("s-loop-serve",SEN,[(RM,"""		req, err := ReadMsg(conn)
		if err != nil {
			rs.Logger.Error("readMsg", "err", err)
			conn.Close()
			conn = nil
			continue
		}

		// handleRequest handles request errors. We always send back a response
		res := rs.handleRequest(req)

		err = WriteMsg(conn, res)
		if err != nil {
			rs.Logger.Error("writeMsg", "err", err)
			conn.Close()
			conn = nil
		}
""","""		if err := rs.serveOne(conn); err != nil {
			rs.Logger.Error("Serving", "err", err)
			conn.Close()
			conn = nil
		}
"""),(RM,"""func (rs *ReconnRemoteSigner) handleRequest(""","""// serveOne answers one request
func (rs *ReconnRemoteSigner) serveOne(conn net.Conn) error {
	req, err := ReadMsg(conn)
	if err != nil {
		return fmt.Errorf("readMsg: %w", err)
	}

	// handleRequest handles request errors. We always send back a response
	return WriteMsg(conn, rs.handleRequest(req))
}

func (rs *ReconnRemoteSigner) handleRequest(""")]),
("s-loop-nested",SEN,[(RM,"""		req, err := ReadMsg(conn)
		if err != nil {
			rs.Logger.Error("readMsg", "err", err)
			conn.Close()
			conn = nil
			continue
		}

		// handleRequest handles request errors. We always send back a response
		res := rs.handleRequest(req)

		err = WriteMsg(conn, res)
		if err != nil {
			rs.Logger.Error("writeMsg", "err", err)
			conn.Close()
			conn = nil
		}
""","""		for rs.IsRunning() {
			req, err := ReadMsg(conn)
			if err != nil {
				rs.Logger.Error("readMsg", "err", err)
				break
			}

			// handleRequest handles request errors. We always send back a response
			if err = WriteMsg(conn, rs.handleRequest(req)); err != nil {
				rs.Logger.Error("writeMsg", "err", err)
				break
			}
		}
		conn.Close()
		conn = nil
""")]),
("s-loop-session",SEN,[(RM,"""	var conn net.Conn
	for {
		if !rs.IsRunning() {
			if conn != nil {
				if err := conn.Close(); err != nil {
					rs.Logger.Error("Close", "err", err.Error()+"closing listener failed")
				}
			}
			return
		}

		for conn == nil {
			proto, address := tmNet.ProtocolAndAddress(rs.address)
			netConn, err := rs.dialer.Dial(proto, address)
			if err != nil {
				rs.Logger.Error("Dialing", "err", err)
				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
				time.Sleep(time.Second * 3)
				continue
			}

			rs.Logger.Info("Connected", "address", rs.address)
			conn, err = tmP2pConn.MakeSecretConnection(netConn, rs.privKey)
			if err != nil {
				conn = nil
				netConn.Close()
				rs.Logger.Error("Secret Conn", "err", err)
				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
				time.Sleep(time.Second * 3)
				continue
			}
		}

		// since dialing can take time, we check running again
		if !rs.IsRunning() {
			if err := conn.Close(); err != nil {
				rs.Logger.Error("Close", "err", err.Error()+"closing listener failed")
			}
			return
		}

		req, err := ReadMsg(conn)
		if err != nil {
			rs.Logger.Error("readMsg", "err", err)
			conn.Close()
			conn = nil
			continue
		}

		// handleRequest handles request errors. We always send back a response
		res := rs.handleRequest(req)

		err = WriteMsg(conn, res)
		if err != nil {
			rs.Logger.Error("writeMsg", "err", err)
			conn.Close()
			conn = nil
		}
	}
}
""","""	for rs.IsRunning() {
		proto, address := tmNet.ProtocolAndAddress(rs.address)
		netConn, err := rs.dialer.Dial(proto, address)
		if err != nil {
			rs.Logger.Error("Dialing", "err", err)
			rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
			time.Sleep(time.Second * 3)
			continue
		}

		rs.Logger.Info("Connected", "address", rs.address)
		conn, err := tmP2pConn.MakeSecretConnection(netConn, rs.privKey)
		if err != nil {
			netConn.Close()
			rs.Logger.Error("Secret Conn", "err", err)
			rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
			time.Sleep(time.Second * 3)
			continue
		}
		rs.session(conn)
	}
}

// session serves a connection until it fails or the service stops
func (rs *ReconnRemoteSigner) session(conn net.Conn) {
	defer conn.Close()
	for rs.IsRunning() {
		req, err := ReadMsg(conn)
		if err != nil {
			rs.Logger.Error("readMsg", "err", err)
			return
		}

		// handleRequest handles request errors. We always send back a response
		if err := WriteMsg(conn, rs.handleRequest(req)); err != nil {
			rs.Logger.Error("writeMsg", "err", err)
			return
		}
	}
}
""")]),
("s-handle-vote",SEN,[(RM,"""	msgSum := &tmProtoPrivval.Message_SignedVoteResponse{SignedVoteResponse: &tmProtoPrivval.SignedVoteResponse{
		Vote:  tmProto.Vote{},
		Error: nil,
	}}
	if vote == nil""","""	res := &tmProtoPrivval.SignedVoteResponse{}
	msgSum := &tmProtoPrivval.Message_SignedVoteResponse{SignedVoteResponse: res}
	if vote == nil"""),(RM,"""	msgSum.SignedVoteResponse.Vote = *vote
	return""","""	res.Vote = *vote
	return"""),(RM,"""				"height", vote.Height, "round", vote.Round, "validator", fmt.Sprintf("%X", vote.ValidatorAddress))
		}
		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
		return""","""				"height", vote.Height, "round", vote.Round, "validator", fmt.Sprintf("%X", vote.ValidatorAddress))
		}
		res.Error = &tmProtoPrivval.RemoteSignerError{Description: err.Error()}
		return""")]),
("s-handle-prop",SEN,[(RM,"""	if err := rs.privVal.SignProposal(rs.chainID, proposal); err != nil {
		switch typedErr := err.(type) {
		case *BeyondBlockError:
			rs.Logger.Debug("Rejecting proposal sign request", "reason", typedErr.msg)
		default:
			rs.Logger.Error("Failed to sign proposal", "address", rs.address, "error", err, "proposal", proposal)
		}
		msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)
		return tmProtoPrivval.Message{Sum: msgSum}
	}
	rs.Logger.Info("Signed proposal", "node", rs.address,
		"height", proposal.Height, "round", proposal.Round, "type", proposal.Type)
	msgSum.SignedProposalResponse.Proposal = *proposal
	return tmProtoPrivval.Message{Sum: msgSum}
""","""	err := rs.privVal.SignProposal(rs.chainID, proposal)
	if err == nil {
		rs.Logger.Info("Signed proposal", "node", rs.address,
			"height", proposal.Height, "round", proposal.Round, "type", proposal.Type)
		msgSum.SignedProposalResponse.Proposal = *proposal
		return tmProtoPrivval.Message{Sum: msgSum}
	}
	if beyond, ok := err.(*BeyondBlockError); ok {
		rs.Logger.Debug("Rejecting proposal sign request", "reason", beyond.msg)
	} else {
		rs.Logger.Error("Failed to sign proposal", "address", rs.address, "error", err, "proposal", proposal)
	}
	msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)
	return tmProtoPrivval.Message{Sum: msgSum}
""")]),
("s-handle-req",SEN,[(RM,"""	switch typedReq := req.Sum.(type) {
	case *tmProtoPrivval.Message_SignVoteRequest:
		return rs.handleSignVoteRequest(typedReq.SignVoteRequest.Vote)
	case *tmProtoPrivval.Message_SignProposalRequest:
		return rs.handleSignProposalRequest(typedReq.SignProposalRequest.Proposal)
	case *tmProtoPrivval.Message_PubKeyRequest:
		return rs.handlePubKeyRequest()
	case *tmProtoPrivval.Message_PingRequest:
		return rs.handlePingRequest()
	default:
		rs.Logger.Error("Unknown request", "err", fmt.Errorf("%v", typedReq))
		return tmProtoPrivval.Message{}
	}
""","""	if req.GetPingRequest() != nil {
		return rs.handlePingRequest()
	}
	if req.GetPubKeyRequest() != nil {
		return rs.handlePubKeyRequest()
	}
	if voteReq := req.GetSignVoteRequest(); voteReq != nil {
		return rs.handleSignVoteRequest(voteReq.GetVote())
	}
	if proposalReq := req.GetSignProposalRequest(); proposalReq != nil {
		return rs.handleSignProposalRequest(proposalReq.GetProposal())
	}
	rs.Logger.Error("Unknown request", "err", fmt.Errorf("%v", req.Sum))
	return tmProtoPrivval.Message{}
""")]),
("s-pubkey",SEN,[(RM,"""	pubKey, err := rs.privVal.GetPubKey()
	if err != nil {
		rs.Logger.Error("Failed to get Pub Key", "address", rs.address, "error", err)
		msgSum.PubKeyResponse.Error = getRemoteSignerError(err)
		return tmProtoPrivval.Message{Sum: msgSum}
	}
	pk, err := tmCryptoEncoding.PubKeyToProto(pubKey)
	if err != nil {
		rs.Logger.Error("Failed to get Pub Key", "address", rs.address, "error", err)
		msgSum.PubKeyResponse.Error = getRemoteSignerError(err)
		return tmProtoPrivval.Message{Sum: msgSum}
	}
	msgSum.PubKeyResponse.PubKey = pk
	return""","""	pk, err := rs.protoPubKey()
	if err != nil {
		rs.Logger.Error("Failed to get Pub Key", "address", rs.address, "error", err)
		msgSum.PubKeyResponse.Error = getRemoteSignerError(err)
	} else {
		msgSum.PubKeyResponse.PubKey = pk
	}
	return"""),(RM,"""func (rs *ReconnRemoteSigner) handlePingRequest(""","""func (rs *ReconnRemoteSigner) protoPubKey() (tmProtoCrypto.PublicKey, error) {
	pubKey, err := rs.privVal.GetPubKey()
	if err != nil {
		return tmProtoCrypto.PublicKey{}, err
	}
	return tmCryptoEncoding.PubKeyToProto(pubKey)
}

func (rs *ReconnRemoteSigner) handlePingRequest(""")]),
("s-startsigners",SEN,[(RM,"""	var err error
	for _, node := range nodes {
		dialer := net.Dialer{Timeout: 30 * time.Second}
		s := NewReconnRemoteSigner(node.Address, logger, chainID, privVal, dialer)

		err = s.Start()
		if err != nil {
			return nil, err
		}

		services = append(services, s)
	}
	return services, err
""","""	const dialTimeout = 30 * time.Second
	for i := range nodes {
		s := NewReconnRemoteSigner(nodes[i].Address, logger, chainID, privVal, net.Dialer{Timeout: dialTimeout})
		if err := s.Start(); err != nil {
			return nil, err
		}
		services = append(services, s)
	}
	return services, nil
""")]),
("s-guard",SEN,[(PG,"""	pv.pvMutex.Lock()
	defer pv.pvMutex.Unlock()
	return pv.PrivValidator.SignVote(chainID, vote)
""","""	return pv.locked(func() error { return pv.PrivValidator.SignVote(chainID, vote) })
"""),(PG,"""	pv.pvMutex.Lock()
	defer pv.pvMutex.Unlock()
	return pv.PrivValidator.SignProposal(chainID, proposal)
}
""","""	return pv.locked(func() error { return pv.PrivValidator.SignProposal(chainID, proposal) })
}

func (pv *PvGuard) locked(op func() error) error {
	pv.pvMutex.Lock()
	defer pv.pvMutex.Unlock()
	return op()
}
""")]),
("s-guard2",SEN,[(PG,"""	pv.pvMutex.Lock()
	defer pv.pvMutex.Unlock()
	return pv.PrivValidator.GetPubKey()
""","""	pv.pvMutex.Lock()
	pubKey, err := pv.PrivValidator.GetPubKey()
	pv.pvMutex.Unlock()
	return pubKey, err
""")]),
("s-terminate",SEN,[(SV,"""	wg := sync.WaitGroup{}
	wg.Add(1)
	tmOS.TrapSignal(logger, func() {
		for _, service := range services {
			err := service.Stop()
			if err != nil {
				panic(err)
			}
		}
		wg.Done()
	})
	wg.Wait()
""","""	var wg sync.WaitGroup
	wg.Add(1)
	tmOS.TrapSignal(logger, func() {
		defer wg.Done()
		stopAll(services)
	})
	wg.Wait()
"""),(SV,"""func WaitAndTerminate(""","""func stopAll(services []tmService.Service) {
	for i := range services {
		if err := services[i].Stop(); err != nil {
			panic(err)
		}
	}
}

func WaitAndTerminate(""")]),
("w-dial",WIR,[(RC,"""func (cosigner *RemoteCosigner) getGRPCClient() (proto.CosignerGRPCClient, *grpc.ClientConn, error) {
	var grpcAddress string
	url, err := url.Parse(cosigner.address)
	if err != nil {
		grpcAddress = cosigner.address
	} else {
		grpcAddress = url.Host
	}
	conn""","""func (cosigner *RemoteCosigner) getGRPCClient() (proto.CosignerGRPCClient, *grpc.ClientConn, error) {
	grpcAddress := cosigner.address
	if parsed, err := url.Parse(cosigner.address); err == nil {
		grpcAddress = parsed.Host
	}
	conn""")]),
("w-remote-split",WIR,[(RC,"""	res, err := client.SetEphemeralSecretPartsAndSign(context, &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: CosignerEphemeralSecretParts(req.EncryptedSecrets).toProto(),
		Hrst:             req.HRST.toProto(),
		SignBytes:        req.SignBytes,
	})
	if err != nil {
		return nil, err
	}
	return &CosignerSignResponse{
		EphemeralPublic: res.GetEphemeralPublic(),
		Timestamp:       time.Unix(0, res.GetTimestamp()),
		Signature:       res.GetSignature(),
	}, nil
""","""	res, err := client.SetEphemeralSecretPartsAndSign(context, req.toProto())
	if err != nil {
		return nil, err
	}
	out := &CosignerSignResponse{}
	out.EphemeralPublic = res.EphemeralPublic
	out.Signature = res.Signature
	out.Timestamp = time.Unix(0, res.Timestamp)
	return out, nil
"""),(CG,"""// Cosigner interface is a set""","""func (req CosignerSetEphemeralSecretPartsAndSignRequest) toProto() *proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest {
	return &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: CosignerEphemeralSecretParts(req.EncryptedSecrets).toProto(),
		Hrst:             req.HRST.toProto(),
		SignBytes:        req.SignBytes,
	}
}

// Cosigner interface is a set""")]),
("w-call",WIR,[(RC,"""	client, conn, err := cosigner.getGRPCClient()
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.GetEphemeralSecretParts(context, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{
		Hrst: req.toProto(),
	})
	if err != nil {
		return nil, err
	}
	return &CosignerEphemeralSecretPartsResponse{
		EncryptedSecrets: CosignerEphemeralSecretPartsFromProto(res.GetEncryptedSecrets()),
	}, nil
""","""	var res *proto.CosignerGRPCGetEphemeralSecretPartsResponse
	err := cosigner.call(func(ctx context.Context, client proto.CosignerGRPCClient) (err error) {
		res, err = client.GetEphemeralSecretParts(ctx, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{
			Hrst: req.toProto(),
		})
		return err
	})
	if err != nil {
		return nil, err
	}
	return &CosignerEphemeralSecretPartsResponse{
		EncryptedSecrets: CosignerEphemeralSecretPartsFromProto(res.GetEncryptedSecrets()),
	}, nil
"""),(RC,"""// Implements the cosigner interface
func (cosigner *RemoteCosigner) GetEph""","""// call runs a request over a connection of its own
func (cosigner *RemoteCosigner) call(do func(context.Context, proto.CosignerGRPCClient) error) error {
	client, conn, err := cosigner.getGRPCClient()
	if err != nil {
		return err
	}
	defer conn.Close()
	ctx, cancelFunc := getContext()
	defer cancelFunc()
	return do(ctx, client)
}

// Implements the cosigner interface
func (cosigner *RemoteCosigner) GetEph""")]),
("w-partsfromproto",WIR,[(CG,"""	for _, secretPart := range secretParts {
		out = append(out, CosignerEphemeralSecretPartFromProto(secretPart))
	}
	return
""","""	out = make([]CosignerEphemeralSecretPart, len(secretParts))
	for i := range secretParts {
		out[i] = CosignerEphemeralSecretPartFromProto(secretParts[i])
	}
	return out
"""),(CG,"""	for _, secretPart := range secretParts {
		out = append(out, secretPart.toProto())
	}
	return
""","""	for i := range secretParts {
		out = append(out, secretParts[i].toProto())
	}
	return out
""")]),
("w-server-split",WIR,[(GS,"""	res, err := rpc.cosigner.SetEphemeralSecretPartsAndSign(CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: CosignerEphemeralSecretPartsFromProto(req.GetEncryptedSecrets()),
		HRST:             HRSTKeyFromProto(req.GetHrst()),
		SignBytes:        req.GetSignBytes(),
	})
	if err != nil {
		return nil, err
	}
	return &proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{
		EphemeralPublic: res.EphemeralPublic,
		Timestamp:       res.Timestamp.UnixNano(),
		Signature:       res.Signature,
	}, nil
""","""	hrst := HRSTKeyFromProto(req.GetHrst())
	parts := CosignerEphemeralSecretPartsFromProto(req.GetEncryptedSecrets())
	signReq := CosignerSetEphemeralSecretPartsAndSignRequest{parts, hrst, req.GetSignBytes()}
	res, err := rpc.cosigner.SetEphemeralSecretPartsAndSign(signReq)
	if err != nil {
		return nil, err
	}
	out := new(proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse)
	out.Signature, out.EphemeralPublic = res.Signature, res.EphemeralPublic
	out.Timestamp = res.Timestamp.UnixNano()
	return out, nil
""")]),
("w-server-block",WIR,[(GS,"""	block := &Block{
		Height:    req.Block.GetHeight(),
		Round:     req.Block.GetRound(),
		Step:      int8(req.Block.GetStep()),
		SignBytes: req.Block.GetSignBytes(),
		Timestamp: time.Unix(0, req.Block.GetTimestamp()),
	}
	res, _, err := rpc.thresholdValidator.SignBlock(req.ChainID, block)
""","""	res, _, err := rpc.thresholdValidator.SignBlock(req.GetChainID(), blockFromProto(req.GetBlock()))
"""),(GS,"""type GRPCServer struct {
""","""func blockFromProto(block *proto.Block) *Block {
	return &Block{
		Height:    block.GetHeight(),
		Round:     block.GetRound(),
		Step:      int8(block.GetStep()),
		SignBytes: block.GetSignBytes(),
		Timestamp: time.Unix(0, block.GetTimestamp()),
	}
}

type GRPCServer struct {
""")]),
("w-transfer",WIR+",C25",[(GS,"""	leaderID := req.GetLeaderID()
	if leaderID != "" {
		for _, peer := range rpc.raftStore.Peers {
			thisPeerID := fmt.Sprint(peer.GetID())
			if thisPeerID == leaderID {
				peerRaftAddress := p2pURLToRaftAddress(peer.GetAddress())
				fmt.Printf("Transferring leadership to ID: %s - Address: %s\\n", thisPeerID, peerRaftAddress)
				f := rpc.raftStore.raft.LeadershipTransferToServer(raft.ServerID(thisPeerID), raft.ServerAddress(peerRaftAddress))
				if err := f.Error(); err != nil {
					return nil, err
				}
				return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: thisPeerID, LeaderAddress: peerRaftAddress}, nil
			}
		}
		return nil, fmt.Errorf("no peer of the leader has the ID %s", leaderID)
	}
""","""	if peer := rpc.peerByID(req.GetLeaderID()); peer != nil {
		id := fmt.Sprint(peer.GetID())
		address := p2pURLToRaftAddress(peer.GetAddress())
		fmt.Printf("Transferring leadership to ID: %s - Address: %s\\n", id, address)
		f := rpc.raftStore.raft.LeadershipTransferToServer(raft.ServerID(id), raft.ServerAddress(address))
		if err := f.Error(); err != nil {
			return nil, err
		}
		return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: id, LeaderAddress: address}, nil
	} else if id := req.GetLeaderID(); id != "" {
		return nil, fmt.Errorf("no peer of the leader has the ID %s", id)
	}
"""),(GS,"""func (rpc *GRPCServer) TransferLeadership(""","""func (rpc *GRPCServer) peerByID(id string) Cosigner {
	for _, peer := range rpc.raftStore.Peers {
		if id != "" && fmt.Sprint(peer.GetID()) == id {
			return peer
		}
	}
	return nil
}

func (rpc *GRPCServer) TransferLeadership(""")]),
("w-leaderclient",WIR,[(RE,"""	var leader string
	for i := 0; i < 30; i++ {
		leader = string(s.GetLeader())
		if leader != "" {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if leader == "" {
		return nil, nil, errors.New("timed out waiting for leader election to complete")
	}
	conn, err := grpc.Dial(leader,""","""	leader, err := s.waitForLeader()
	if err != nil {
		return nil, nil, err
	}
	conn, err := grpc.Dial(leader,"""),(RE,"""func (s *RaftStore) getLeaderGRPCClient(""","""func (s *RaftStore) waitForLeader() (string, error) {
	for i := 0; i < 30; i++ {
		if leader := string(s.GetLeader()); leader != "" {
			return leader, nil
		}
		time.Sleep(100 * time.Millisecond)
	}
	return "", errors.New("timed out waiting for leader election to complete")
}

func (s *RaftStore) getLeaderGRPCClient(""")]),
("w-leaderclient-deadline",WIR,[(RE,"""	var leader string
	for i := 0; i < 30; i++ {
		leader = string(s.GetLeader())
		if leader != "" {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if leader == "" {
		return nil, nil, errors""","""	leader := string(s.GetLeader())
	for tries := 30; leader == "" && tries > 0; tries-- {
		time.Sleep(100 * time.Millisecond)
		leader = string(s.GetLeader())
	}
	if leader == "" {
		return nil, nil, errors""")]),
("w-leadersign",WIR,[(RE,"""	res, err := client.SignBlock(context, &proto.CosignerGRPCSignBlockRequest{
		ChainID: req.ChainID,
		Block:   req.Block.toProto(),
	})
	if err != nil {
		return nil, err
	}
	return &CosignerSignBlockResponse{
		Signature: res.GetSignature(),
	}, nil
""","""	protoReq := &proto.CosignerGRPCSignBlockRequest{ChainID: req.ChainID}
	protoReq.Block = req.Block.toProto()
	res, err := client.SignBlock(context, protoReq)
	if err == nil {
		return &CosignerSignBlockResponse{Signature: res.GetSignature()}, nil
	}
	return nil, err
""")]),
("w-unpack",WIR+",C04,C09",[(SE,"""	{
		var vote tmProto.CanonicalVote
		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil {
			if vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType {
				return HRSTKey{0, 0, 0, 0}, fmt.Errorf("unknown vote type: %v", vote.Type)
			}
			return HRSTKey{vote.Height, vote.Round, CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil
		}
	}

	return HRSTKey{0, 0, 0, 0}, errors.New("could not UnpackHRS from sign bytes")
""","""	var vote tmProto.CanonicalVote
	if protoio.UnmarshalDelimited(signBytes, &vote) != nil {
		return HRSTKey{}, errors.New("could not UnpackHRS from sign bytes")
	}
	switch vote.Type {
	case tmProto.PrevoteType:
	case tmProto.PrecommitType:
	default:
		return HRSTKey{}, fmt.Errorf("unknown vote type: %v", vote.Type)
	}
	return HRSTKey{
		Height:    vote.Height,
		Round:     vote.Round,
		Step:      CanonicalVoteToStep(&vote),
		Timestamp: vote.Timestamp.UnixNano(),
	}, nil
""")]),
("w-hrstfrom",WIR,[(CG,"""	return HRSTKey{
		Height:    hrs.GetHeight(),
		Round:     hrs.GetRound(),
		Step:      int8(hrs.GetStep()),
		Timestamp: hrs.GetTimestamp(),
	}
""","""	if hrs == nil {
		return HRSTKey{}
	}
	return HRSTKey{
		Height:    hrs.Height,
		Round:     hrs.Round,
		Step:      int8(hrs.Step),
		Timestamp: hrs.Timestamp,
	}
""")]),
("w-raftinit",WIR+",C25",[(RS,"""	grpcServer := grpc.NewServer()
	proto.RegisterCosignerGRPCServer(grpcServer, &GRPCServer{
		cosigner:           s.cosigner,
		thresholdValidator: s.thresholdValidator,
		raftStore:          s,
	})
	transportManager.Register(grpcServer)
	leaderhealth.Setup(s.raft, grpcServer, []string{"Leader"})
	raftadmin.Register(grpcServer, s.raft)
	reflection.Register(grpcServer)
	if err := grpcServer.Serve(sock); err != nil {
		return err
	}
	return nil
""","""	grpcServer := s.newGRPCServer()
	transportManager.Register(grpcServer)
	leaderhealth.Setup(s.raft, grpcServer, []string{"Leader"})
	raftadmin.Register(grpcServer, s.raft)
	reflection.Register(grpcServer)
	return grpcServer.Serve(sock)
"""),(RS,"""// OnStart starts the raft server
""","""func (s *RaftStore) newGRPCServer() *grpc.Server {
	grpcServer := grpc.NewServer()
	server := &GRPCServer{raftStore: s}
	server.cosigner = s.cosigner
	server.thresholdValidator = s.thresholdValidator
	proto.RegisterCosignerGRPCServer(grpcServer, server)
	return grpcServer
}

// OnStart starts the raft server
""")]),
("w-onstart",WIR+",C25",[(RS,"""	go func() {
		err := s.init()
		if err != nil {
			panic(err)
		}
	}()

	return nil
""","""	go s.run()
	return nil
"""),(RS,"""// OnStart starts the raft server
""","""func (s *RaftStore) run() {
	if err := s.init(); err != nil {
		panic(err)
	}
}

// OnStart starts the raft server
""")]),
]
