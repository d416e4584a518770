C="cmd/horcrux/cmd/cosigner.go"; S="signer/sign_state.go"; G="cmd/horcrux/cmd/signer.go"; I="cmd/horcrux/cmd/config.go"; L="signer/local_cosigner.go"
M=[
("c17-create","C17",[(C,"shareSignState, err := signer.LoadSignState(","shareSignState, err := signer.LoadOrCreateSignState(")]),
("c17-ignore","C17",[(C,"LoadSignState(shareStateFile)\n			if err != nil {\n				panic(err)","LoadSignState(shareStateFile)\n			if err != nil {\n				log.Println(err)")]),
("c17-pvfile","C17",[(C,'"%s_share_sign_state.json"','"%s_priv_validator_state.json"')]),
("c17-nochain","C17",[(C,'fmt.Sprintf("%s_share_sign_state.json", chainID)','fmt.Sprintf("%s_share_sign_state.json", "x")')]),
("c17-swap","C17",[(C,"&shareSignState","&signState")]),
("c17-home","C17",[(C,'path.Join(config.HomeDir, "state")','path.Join(os.TempDir(), "state")')]),
("c17-reset","C17",[(C,"			total := len(cfg.Cosigners) + 1","			shareSignState.Step = 0\n			total := len(cfg.Cosigners) + 1")]),
("c17-zero","C17",[(L,"lastSignState: cfg.SignState","lastSignState: &SignState{filePath: cfg.SignState.filePath, cache: cfg.SignState.cache}")]),
("c17-replace","C17",[(S,"	} else if info.Size() > 0 {\n		return SignState{}, err\n	}","	} else if info.IsDir() {\n		return SignState{}, err\n	}")]),
("c17-replace2","C17",[(S,"		if !os.IsNotExist(statErr) {\n			return SignState{}, err\n		}","		_ = statErr")]),
("c17-notstep","C17",[(S,'	Step            int8             `json:"step"`','	Step            int8             `json:"-"`')]),
("c17-nopath","C17",[(S,"	state.filePath = filepath\n	return state, nil\n}\n\n// LoadOr",'	state.filePath = "none"\n	return state, nil\n}\n\n// LoadOr')]),
("c17-decode","C17",[(S,"	err = tmJson.Unmarshal(stateJSONBytes, &state)\n	if err != nil {\n		return state, err\n	}","	_ = tmJson.Unmarshal(stateJSONBytes, &state)")]),
("c17-empty","C17",[(G,"	state, err := signer.LoadSignState(stateFile)\n	if err != nil {\n		// not written by horcrux config or state, but by the FilePV itself\n		return privval.LoadFilePV(keyFile, stateFile), nil","	state, err := signer.LoadSignState(stateFile)\n	if err != nil {\n		return privval.LoadFilePVEmptyState(keyFile, stateFile), nil")]),
("c17-always","C17",[(G,"if os.IsNotExist(err) || (err == nil && info.Size() == 0) {","if os.IsNotExist(err) || (err == nil && info.Size() >= 0) {")]),
("c17-nosign","C17",[(G,"	pv.LastSignState.SignBytes = state.SignBytes\n","")]),
("c17-noround","C17",[(G,"	pv.LastSignState.Round = int32(state.Round)\n","")]),
("c17-single-name","C17",[(G,'"%s_priv_validator_state.json"','"%s_state.json"')]),
("c17-single-reset","C17",[(G,"	return pv, nil\n}","	pv.LastSignState.Height--\n	return pv, nil\n}")]),
("c17-init-rm","C17",[(I,"			// initialize state/{chainid}","			os.Remove(path.Join(home, \"state\", fmt.Sprintf(\"%s_share_sign_state.json\", cid)))\n			// initialize state/{chainid}")]),
("c17-k-is","=C17",[(S,"!os.IsNotExist(statErr)","!errors.Is(statErr, os.ErrNotExist)")]),
("c17-k-read","=C17",[(S,"	if info, statErr := os.Stat(filepath); statErr != nil {\n		if !os.IsNotExist(statErr) {\n			return SignState{}, err\n		}\n	} else if info.Size() > 0 {\n		return SignState{}, err\n	}","	if b, rdErr := ioutil.ReadFile(filepath); (rdErr != nil && !os.IsNotExist(rdErr)) || len(b) > 0 {\n		return SignState{}, err\n	}")]),
("c17-k-name","=C17",[(C,'fmt.Sprintf("%s_share_sign_state.json", chainID)','chainID+"_share_sign_state.json"')]),
("c17-k-helper","=C17",[(C,'path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_share_sign_state.json", chainID))','shareFile(cfg.PrivValStateDir, config.ChainID)'),(C,"func StartCosignerCmd","func shareFile(dir, chain string) string {\n	return path.Join(dir, chain+\"_share_sign_state.json\")\n}\n\nfunc StartCosignerCmd")]),
("c17-k-order","=C17",[(C,"			total := len(cfg.Cosigners) + 1\n			if","			watermark := &shareSignState\n			total := len(cfg.Cosigners) + 1\n			if"),(C,"&shareSignState,","watermark,")]),
("c17-k-ret","=C17",[(C,"LoadSignState(shareStateFile)\n			if err != nil {\n				panic(err)","LoadSignState(shareStateFile)\n			if err != nil {\n				return err")]),
("c17-k-struct","=C17",[(G,"	pv.LastSignState.Height = state.Height\n	pv.LastSignState.Round = int32(state.Round)\n	pv.LastSignState.Step = state.Step\n","	last := &pv.LastSignState\n	last.Height, last.Round, last.Step = state.Height, int32(state.Round), state.Step\n")]),
("c17-k-load","=C17",[(S,"	existing, err := LoadSignState(filepath)\n	if err == nil {\n		return existing, nil\n	}\n","	var existing SignState\n	var err error\n	if existing, err = LoadSignState(filepath); err == nil {\n		return existing, nil\n	}\n")]),
]
