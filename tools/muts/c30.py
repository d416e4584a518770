ST, CC = "signer/raft_store.go", "cmd/horcrux/cmd/cosigner.go"
LOOP = '''	for _, peer := range s.Peers {
		configuration.Servers = append(configuration.Servers, raft.Server{
			ID:      raft.ServerID(fmt.Sprint(peer.GetID())),
			Address: raft.ServerAddress(p2pURLToRaftAddress(peer.GetAddress())),
		})
	}
'''
WHOLE = '''	configuration := raft.Configuration{
		Servers: []raft.Server{
			{
				ID:      raft.ServerID(s.NodeID),
				Address: raftAddress,
			},
		},
	}
''' + LOOP
B, K = "C30", "=C30"
def one(n, p, f, a, b): return (n, p, [(f, a, b)])
M = [
 one("c30-off", B, ST, "fmt.Sprint(peer.GetID())", "fmt.Sprint(peer.GetID() - 1)"),
 one("c30-pos", B, ST, LOOP, LOOP.replace("for _, peer", "for i, peer").replace("fmt.Sprint(peer.GetID())", "fmt.Sprint(i + 1)")),
 one("c30-skip", B, ST, LOOP, LOOP.replace("s.Peers {\n", "s.Peers {\n		if peer.GetAddress() == s.RaftBind {\n			continue\n		}\n")),
 one("c30-last", B, ST, LOOP, LOOP.replace("range s.Peers {", "range s.Peers[1:] {")),
 one("c30-break", B, ST, LOOP, LOOP.replace("		})\n	}\n", "		})\n		if len(configuration.Servers) > 2 {\n			break\n		}\n	}\n")),
 one("c30-nonvoter", B, ST, LOOP, LOOP.replace("			Address:", "			Suffrage: raft.Nonvoter,\n			Address:")),
 one("c30-noself", B, ST, WHOLE, "	configuration := raft.Configuration{}\n	_ = raftAddress\n" + LOOP),
 one("c30-selfaddr", B, ST, "				Address: raftAddress,\n", "				Address: raft.ServerAddress(s.RaftBind + \"x\"),\n"),
 one("c30-peeraddr", B, ST, "raft.ServerAddress(p2pURLToRaftAddress(peer.GetAddress()))", "raftAddress"),
 one("c30-localid", B, ST, "config.LocalID = raft.ServerID(s.NodeID)", "config.LocalID = raft.ServerID(s.RaftBind)"),
 one("c30-onefile", B, ST, '"stable.dat"', '"logs.dat"'),
 one("c30-inmem", B, ST, '''	stableStore, err := boltdb.NewBoltStore(stableStoreFile)
	if err != nil {
		return nil, fmt.Errorf(`boltdb.NewBoltStore(%q): %v`, stableStoreFile, err)
	}
''', '''	_ = stableStoreFile
	stableStore := raft.NewInmemStore()
'''),
 one("c30-pid", B, ST, '''filepath.Join(s.RaftDir, "logs.dat")''', '''filepath.Join(s.RaftDir, fmt.Sprintf("logs-%d.dat", os.Getpid()))'''),
 one("c30-tmp", B, ST, '''filepath.Join(s.RaftDir, "stable.dat")''', '''filepath.Join(os.TempDir(), "stable.dat")'''),
 one("c30-wipe", B, ST, '''	stableStore, err :=''', '''	_ = os.Remove(stableStoreFile)
	stableStore, err :='''),
 one("c30-wipestart", B, CC, '''			if err := os.MkdirAll(raftDir, 0700); err != nil {''', '''			_ = os.RemoveAll(raftDir)
			if err := os.MkdirAll(raftDir, 0700); err != nil {'''),
 one("c30-wipelog", B, CC, '''			if err := os.MkdirAll(raftDir, 0700); err != nil {''', '''			_ = os.Remove(path.Join(raftDir, "logs.dat"))
			if err := os.MkdirAll(raftDir, 0700); err != nil {'''),
 one("c30-wd", B, CC, '''path.Join(config.HomeDir, "raft")''', '''path.Join("raft", config.ChainID)'''),
 one("c30-node", B, CC, '''nodeID := fmt.Sprint(key.ID)''', '''nodeID := fmt.Sprint(key.ID - 1)'''),
 one("c30-nodetotal", B, CC, '''nodeID := fmt.Sprint(key.ID)''', '''nodeID := fmt.Sprint(len(peers))'''),
 one("c30-bind", B, CC, '''raftDir, cfg.ListenAddress, timeout''', '''raftDir, cfg.Nodes[0].Address, timeout'''),
 one("c30-fewer", B, CC, '''				cosigners = append(cosigners, cosigner)
''', '''				if cosignerConfig.ID != key.ID+1 {
					cosigners = append(cosigners, cosigner)
				}
'''),
 one("c30-threshold", B, CC, '''raftDir, cfg.ListenAddress, timeout, logger, localCosigner, cosigners)''', '''raftDir, cfg.ListenAddress, timeout, logger, localCosigner, cosigners[:cfg.CosignerThreshold-1])'''),
 one("c30-k-index", K, ST, WHOLE, '''	servers := make([]raft.Server, len(s.Peers)+1)
	servers[0] = raft.Server{ID: raft.ServerID(s.NodeID), Address: raftAddress}
	for i, peer := range s.Peers {
		servers[i+1] = raft.Server{
			ID:      raft.ServerID(fmt.Sprint(peer.GetID())),
			Address: raft.ServerAddress(p2pURLToRaftAddress(peer.GetAddress())),
		}
	}
	configuration := raft.Configuration{Servers: servers}
'''),
 one("c30-k-selflast", K, ST, WHOLE, '''	var configuration raft.Configuration
''' + LOOP + '''	configuration.Servers = append(configuration.Servers, raft.Server{
		ID: raft.ServerID(s.NodeID), Address: raftAddress, Suffrage: raft.Voter})
'''),
 ("c30-k-itoa", K, [(ST, "fmt.Sprint(peer.GetID())", "strconv.Itoa(peer.GetID())"), (ST, '	"path/filepath"\n', '	"path/filepath"\n	"strconv"\n')]),
 ("c30-k-helper", K, [(ST, LOOP, '''	for _, peer := range s.Peers {
		configuration.Servers = append(configuration.Servers, serverFor(peer))
	}
'''), (ST, "// Get returns the value", '''func serverFor(peer Cosigner) raft.Server {
	var server raft.Server
	server.ID = raft.ServerID(fmt.Sprintf("%d", peer.GetID()))
	server.Address = raft.ServerAddress(p2pURLToRaftAddress(peer.GetAddress()))
	return server
}

// Get returns the value''')]),
 ("c30-k-onestore", K, [(ST, '''	stableStoreFile := filepath.Join(s.RaftDir, "stable.dat")
	stableStore, err := boltdb.NewBoltStore(stableStoreFile)
	if err != nil {
		return nil, fmt.Errorf(`boltdb.NewBoltStore(%q): %v`, stableStoreFile, err)
	}
''', ""), (ST, "logStore, stableStore, snapshots", "logStore, logStore, snapshots")]),
 ("c30-k-openhelper", K, [(ST, '''	logStoreFile := filepath.Join(s.RaftDir, "logs.dat")
	logStore, err := boltdb.NewBoltStore(logStoreFile)
	if err != nil {
		return nil, fmt.Errorf(`boltdb.NewBoltStore(%q): %v`, logStoreFile, err)
	}

	stableStoreFile := filepath.Join(s.RaftDir, "stable.dat")
	stableStore, err := boltdb.NewBoltStore(stableStoreFile)
	if err != nil {
		return nil, fmt.Errorf(`boltdb.NewBoltStore(%q): %v`, stableStoreFile, err)
	}
''', '''	logStore, err := s.boltStore("logs.dat")
	if err != nil {
		return nil, err
	}

	stableStore, err := s.boltStore("stable.dat")
	if err != nil {
		return nil, err
	}
'''), (ST, "// Get returns the value", '''func (s *RaftStore) boltStore(name string) (*boltdb.BoltStore, error) {
	file := filepath.Join(s.RaftDir, name)
	store, err := boltdb.NewBoltStore(file)
	if err != nil {
		return nil, fmt.Errorf(`boltdb.NewBoltStore(%q): %v`, file, err)
	}
	return store, nil
}

// Get returns the value''')]),
 one("c30-k-bootnew", K, ST, '''	s.raft.BootstrapCluster(configuration)
''', '''	// an error says that the cluster exists already
	_ = s.raft.BootstrapCluster(configuration).Error()
'''),
]
M += [
 one("c30-index-short", B, ST, WHOLE, '''	servers := make([]raft.Server, len(s.Peers)+1)
	servers[0] = raft.Server{ID: raft.ServerID(s.NodeID), Address: raftAddress}
	for i, peer := range s.Peers {
		servers[i] = raft.Server{
			ID:      raft.ServerID(fmt.Sprint(peer.GetID())),
			Address: raft.ServerAddress(p2pURLToRaftAddress(peer.GetAddress())),
		}
	}
	configuration := raft.Configuration{Servers: servers}
'''),
]
