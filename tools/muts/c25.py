K="cmd/horcrux/cmd/cosigner.go"; G="cmd/horcrux/cmd/signer.go"; R="signer/raft_store.go"; V="signer/services.go"; S="signer/remote_signer.go"; T="signer/threshold_validator.go"
ST="""			// Start RAFT store listener, now that everything it serves is in place
			if err := raftStore.Start(); err != nil {
				log.Fatalf("Error starting raft store: %v\\n", err)
			}
			services = append(services, raftStore)

"""
SET="			raftStore.SetThresholdValidator(val.(*signer.ThresholdValidator))\n\n"
REM="""			services, err = signer.StartRemoteSigners(services, logger, cfg.ChainID, pv, cfg.Nodes)
			if err != nil {
				panic(err)
			}
"""
M=[
("c25-early","C25",[(K,ST,""),(K,"			val = signer.NewThresholdValidator(",ST+"			val = signer.NewThresholdValidator(")]),
("c25-setlate","C25",[(K,SET,""),(K,"			pv = &signer.PvGuard",SET+"			pv = &signer.PvGuard")]),
("c25-noset","C25",[(K,SET,"")]),
("c25-setnil","C25",[(K,SET,"			if len(cosigners) > 0 {\n"+SET+"			}\n")]),
("c25-sentriesfirst","C25",[(K,ST,""),(K,REM,REM+ST)]),
("c25-logonly","C25",[(K,'				log.Fatalf("Error starting raft store: %v\\n", err)','				log.Printf("Error starting raft store: %v\\n", err)')]),
("c25-notlisted","C25",[(K,"			services = append(services, raftStore)\n","")]),
("c25-shadow","C25",[(K,"			services, err = signer.StartRemoteSigners(services,","			_, err = signer.StartRemoteSigners(services,")]),
("c25-dropraft","C25",[(K,"signer.StartRemoteSigners(services,","signer.StartRemoteSigners(services[:0],")]),
("c25-remlog","C25",[(K,REM,REM.replace("panic(err)","log.Println(err)"))]),
("c25-gremlog","C25",[(G,REM,REM.replace("panic(err)","log.Println(err)"))]),
("c25-skiperr","C25",[(S,"		if err != nil {\n			return nil, err\n		}\n\n		services","		if err != nil {\n			logger.Error(\"x\")\n			continue\n		}\n\n		services")]),
("c25-ignorestart","C25",[(S,"		err = s.Start()\n		if err != nil {\n			return nil, err\n		}\n","		_ = s.Start()\n")]),
("c25-firstappend","C25",[(S,"		services = append(services, s)\n	}\n	return services, err","		if node.Address != \"\" {\n			services = append(services, s)\n		}\n	}\n	return services, err")]),
("c25-stopbreak","C25",[(V,"				panic(err)","				break")]),
("c25-stop1","C25",[(V,"range services {","range services[1:] {")]),
("c25-nowait","C25",[(V,"	wg.Wait()","	_ = wg.Wait")]),
("c25-nostop","C25",[(V,"			err := service.Stop()\n			if err != nil {\n				panic(err)\n			}\n","			_ = service.OnReset()\n")]),
("c25-noterm","C25",[(K,"			signer.WaitAndTerminate(logger, services)\n","			if len(services) > 1 {\n				signer.WaitAndTerminate(logger, services)\n			}\n")]),
("c25-key","C25",[(K,'				return fmt.Errorf("error reading cosigner key: %s", err)\n			}\n\n			// ok','				logger.Error("error reading cosigner key", err)\n			}\n\n			// ok')]),
("c25-state","C25",[(K,'signState, err := signer.LoadOrCreateSignState(stateFile)\n			if err != nil {\n				panic(err)','signState, err := signer.LoadOrCreateSignState(stateFile)\n			if err != nil {\n				log.Println(err)')]),
("c25-mkdir","C25",[(K,'				log.Fatalf("Error creating raft','				log.Printf("Error creating raft')]),
("c25-validate","C25",[(K,"			err = validateCosignerConfig(config)\n			if err != nil {\n				return\n			}\n\n			var (","			if err = validateCosignerConfig(config); err != nil {\n				log.Println(err)\n			}\n\n			var (")]),
("c25-pubkey","C25",[(G,"				log.Fatal(err)","				log.Println(err)")]),
("c25-othercos","C25",[(K,"				Cosigner:  localCosigner,","				Cosigner:  signer.NewLocalCosigner(localCosignerConfig),")]),
("c25-peers","C25",[(K,"				Peers:     cosigners,","				Peers:     cosigners[1:],")]),
("c25-nostore","C25",[(K,"				RaftStore: raftStore,\n","")]),
("c25-initerr","C25",[(R,"			panic(err)\n		}\n	}()","			s.logger.Error(\"x\", err)\n		}\n	}()")]),
("c25-listenerr","C25",[(R,"	sock, err := net.Listen(\"tcp\", fmt.Sprintf(\":%s\", port))\n	if err != nil {\n		return err\n	}","	sock, err := net.Listen(\"tcp\", fmt.Sprintf(\":%s\", port))\n	if err != nil {\n		return nil\n	}")]),
("c25-srv-tv","C25",[(R,"		thresholdValidator: s.thresholdValidator,\n","")]),
("c25-srv-cos","C25",[(R,"			cosigner:           s.cosigner,\n" if False else "		cosigner:           s.cosigner,\n		thresholdValidator","		thresholdValidator")]),
("c25-transport","C25",[(R,"	transportManager.Register(grpcServer)\n","")]),
("c25-regafter","C25",[(R,"	proto.RegisterCosignerGRPCServer(grpcServer, &GRPCServer{\n		cosigner:           s.cosigner,\n		thresholdValidator: s.thresholdValidator,\n		raftStore:          s,\n	})\n","	if s.thresholdValidator != nil {\n		proto.RegisterCosignerGRPCServer(grpcServer, &GRPCServer{\n			cosigner:           s.cosigner,\n			thresholdValidator: s.thresholdValidator,\n			raftStore:          s,\n		})\n	}\n")]),
("c25-noraft","C25",[(R,"	s.raft = ra\n\n	configuration","	s.raft = ra\n	if len(s.Peers) == 0 {\n		s.raft = nil\n	}\n	configuration")]),
("c25-bolt","C25",[(R,"	stableStore, err := boltdb.NewBoltStore(stableStoreFile)\n	if err != nil {\n		return nil, fmt.Errorf(`boltdb.NewBoltStore(%q): %v`, stableStoreFile, err)\n	}","	stableStore, _ := boltdb.NewBoltStore(stableStoreFile)")]),
("c25-k-ret","=C25",[(K,'				log.Fatalf("Error starting raft store: %v\\n", err)','				return fmt.Errorf("error starting raft store: %w", err)')]),
("c25-k-panicret","=C25",[(K,REM,REM.replace("panic(err)","return err"))]),
("c25-k-helper","=C25",[(K,ST,"			if err := startPeerService(raftStore); err != nil {\n				log.Fatal(err)\n			}\n			services = append(services, raftStore)\n"),(K,"func StartCosignerCmd","func startPeerService(rs *signer.RaftStore) error {\n	if err := rs.Start(); err != nil {\n		return fmt.Errorf(\"start: %w\", err)\n	}\n	return nil\n}\n\nfunc StartCosignerCmd")]),
("c25-k-tv","=C25",[(K,"			val = signer.NewThresholdValidator(","			thresholdValidator := signer.NewThresholdValidator("),(K,SET,"			val = thresholdValidator\n			raftStore.SetThresholdValidator(thresholdValidator)\n\n")]),
("c25-k-ctor","=C25",[(R,"	cosignerRaftStore := &RaftStore{\n		NodeID:      nodeID,","	cosignerRaftStore := new(RaftStore)\n	*cosignerRaftStore = RaftStore{\n		NodeID:      nodeID,")]),
("c25-k-stop","=C25",[(V,"			err := service.Stop()\n			if err != nil {\n				panic(err)\n			}\n","			if err := service.Stop(); err != nil {\n				logger.Error(\"stop\", \"err\", err)\n			}\n")]),
("c25-k-stopidx","=C25",[(V,"		for _, service := range services {\n			err := service.Stop()","		for i := len(services) - 1; i >= 0; i-- {\n			err := services[i].Stop()")]),
("c25-k-init","=C25",[(R,"	if err := grpcServer.Serve(sock); err != nil {\n		return err\n	}\n	return nil","	return grpcServer.Serve(sock)")]),
("c25-k-go","=C25",[(R,"		err := s.init()\n		if err != nil {\n			panic(err)\n		}\n","		if err := s.init(); err != nil {\n			s.logger.Error(\"raft\", \"err\", err)\n			os.Exit(1)\n		}\n")]),
("c25-k-startr","=C25",[(S,"	var err error\n	for _, node := range nodes {","	for _, node := range nodes {"),(S,"		err = s.Start()\n		if err != nil {","		if err := s.Start(); err != nil {"),(S,"	return services, err\n}","	return services, nil\n}")]),
("c25-k-chan","=C25",[(V,"	wg := sync.WaitGroup{}\n	wg.Add(1)\n","	done := make(chan struct{})\n"),(V,"		wg.Done()","		close(done)"),(V,"	wg.Wait()","	<-done"),(V,'	"sync"\n\n','')]),
]
