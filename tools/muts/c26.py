C="cmd/horcrux/cmd/state.go"; S="signer/sign_state.go"
RUN="""			if isRunning() {
				return errors.New("cannot modify state while horcrux is running")
			}
"""
M=[
("c26-norun","C26",[(C,RUN,"			if isRunning() {\n				_ = errors.New(\"\")\n			}\n")]),
("c26-inv","C26",[(C,"if isRunning() {","if !isRunning() {")]),
("c26-first","C26",[(C,"			return true\n		}\n	}\n	return false","			return len(pid) > 5\n		}\n	}\n	return false")]),
("c26-warn","C26",[(C,'				return errors.New("cannot modify state while horcrux is running")','				fmt.Println(errors.New("cannot modify state while horcrux is running"))')]),
("c26-otherproc","C26",[(C,'ps -ax | pgrep horcrux','ps -ax | pgrep gaiad')]),
("c26-late","C26",[(C,RUN,""),(C,"			if err := share.Save(signState, nil)",RUN+"			if err := share.Save(signState, nil)")]),
("c26-one","C26",[(C,"			if err := share.Save(signState, nil); err != nil {\n				return fmt.Errorf(\"share sign state: %w\", err)\n			}\n","")]),
("c26-ignore","C26",[(C,"			if err := share.Save(signState, nil); err != nil {\n				return fmt.Errorf(\"share sign state: %w\", err)\n			}\n","			_ = share.Save(signState, nil)\n")]),
("c26-ignorepv","C26",[(C,'				return fmt.Errorf("priv validator state: %w", err)','				fmt.Println("priv validator state: %w", err)')]),
("c26-samefile","C26",[(C,"			pv, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			filepath = path.Join(stateDir, config.ChainID+\"_share_sign_state.json\")\n			share, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			height","			pv, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			share, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			height")]),
("c26-home","C26",[(C,'				home, _ := homedir.Dir()\n				stateDir = path.Join(home, ".horcrux", "state")\n			}\n\n			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")\n			pv, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			filepath = path.Join(stateDir, config.ChainID+"_share_sign_state.json")\n			share, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			height','				home, _ := homedir.Dir()\n				stateDir = path.Join(home, "state")\n			}\n\n			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")\n			pv, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			filepath = path.Join(stateDir, config.ChainID+"_share_sign_state.json")\n			share, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			height')]),
("c26-atoi","C26",[(C,"			height, err := strconv.ParseInt(args[0], 10, 64)\n			if err != nil {\n				return err\n			}\n","			height, _ := strconv.ParseInt(args[0], 10, 64)\n")]),
("c26-base","C26",[(C,"strconv.ParseInt(args[0], 10, 64)","strconv.ParseInt(args[0], 16, 64)")]),
("c26-h1","C26",[(C,"				Height:    height,","				Height:    height - 1,")]),
("c26-step","C26",[(C,"				Step:      0,\n				Signature: nil","				Step:      3,\n				Signature: nil")]),
("c26-backward","C26",[(S,"	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, nil)\n	if err != nil {\n		return err\n	}\n","	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, nil)\n	if err != nil && ssc.SignBytes != nil {\n		return err\n	}\n")]),
("c26-direct","C26",[(C,"			pv.EphemeralPublic, share","			pv.Height, pv.Round, pv.Step = 0, 0, 0\n			pv.EphemeralPublic, share")]),
("c26-keepsig","C26",[(C,"				SignBytes: nil,","				SignBytes: pv.SignBytes,")]),
("c26-show-create","C26",[(C,'			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")\n			pv, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			filepath = path.Join(stateDir, config.ChainID+"_share_sign_state.json")\n			share, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			fmt','			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")\n			pv, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			filepath = path.Join(stateDir, config.ChainID+"_share_sign_state.json")\n			share, err := signer.LoadOrCreateSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			fmt')]),
("c26-create","C26",[(C,'			share, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			height','			share, err := signer.LoadOrCreateSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			height')]),
("c26-skipequal","C26",[(C,"			if err := share.Save(signState, nil); err != nil {","			if err := share.Save(signState, nil); err != nil && share.Height < height {")]),
("c26-zero-height","C26",[(C,"			if err := pv.Save(","			if height == 0 {\n				return nil\n			}\n			if err := pv.Save(")]),
("c26-k-atoi","=C26",[(C,"strconv.ParseInt(args[0], 10, 64)","strconv.ParseInt(args[0], 10, 0)")]),
("c26-k-order","=C26",[(C,"			if err := pv.Save(signState, nil); err != nil {\n				return fmt.Errorf(\"priv validator state: %w\", err)\n			}\n			if err := share.Save(signState, nil); err != nil {\n				return fmt.Errorf(\"share sign state: %w\", err)\n			}\n			return nil","			if err := share.Save(signState, nil); err != nil {\n				return err\n			}\n			return pv.Save(signState, nil)")]),
("c26-k-loop","=C26",[(C,"			if err := pv.Save(signState, nil); err != nil {\n				return fmt.Errorf(\"priv validator state: %w\", err)\n			}\n			if err := share.Save(signState, nil); err != nil {\n				return fmt.Errorf(\"share sign state: %w\", err)\n			}\n			return nil","			for _, ss := range []*signer.SignState{&pv, &share} {\n				if err := ss.Save(signState, nil); err != nil {\n					return err\n				}\n			}\n			return nil")]),
("c26-k-ctor","=C26",[(C,"			signState := signer.SignStateConsensus{\n				Height:    height,\n				Round:     0,\n				Step:      0,\n				Signature: nil,\n				SignBytes: nil,\n			}","			signState := signer.NewSignStateConsensus(height, 0, 0)")]),
("c26-k-early","=C26",[(C,RUN,"			height, err := strconv.ParseInt(args[0], 10, 64)\n			if err != nil {\n				return err\n			}\n"+RUN),(C,"			height, err := strconv.ParseInt(args[0], 10, 64)\n			if err != nil {\n				return err\n			}\n\n			pv.Eph","			pv.Eph")]),
("c26-k-countpids","=C26",[(C,"	for _, pid := range strings.Fields(string(bz)) {\n		// this very command is a horcrux process too\n		if pid != strconv.Itoa(os.Getpid()) {\n			return true\n		}\n	}\n	return false","	own, others := strconv.Itoa(os.Getpid()), 0\n	for _, pid := range strings.Fields(string(bz)) {\n		if pid != own {\n			others++\n		}\n	}\n	return others > 0")]),
("c26-k-bool","=C26",[(C,"	for _, pid := range strings.Fields(string(bz)) {\n		// this very command is a horcrux process too\n		if pid != strconv.Itoa(os.Getpid()) {\n			return true\n		}\n	}\n	return false","	running := false\n	for _, pid := range strings.Fields(string(bz)) {\n		if pid == strconv.Itoa(os.Getpid()) {\n			continue\n		}\n		running = true\n	}\n	return running")]),
("c26-k-helper","=C26",[(C,'			var stateDir string // In root.go we end up with our\n			if homeDir != "" {\n				stateDir = path.Join(homeDir, "state")\n			} else {\n				home, _ := homedir.Dir()\n				stateDir = path.Join(home, ".horcrux", "state")\n			}\n\n			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")\n			pv, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			filepath = path.Join(stateDir, config.ChainID+"_share_sign_state.json")\n			share, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			height','			pv, share, err := loadStates()\n			if err != nil {\n				return err\n			}\n\n			height'),(C,"func isRunning","""func loadStates() (pv, share signer.SignState, err error) {
	stateDir := path.Join(homeDir, "state")
	if homeDir == "" {
		home, _ := homedir.Dir()
		stateDir = path.Join(home, ".horcrux", "state")
	}
	if pv, err = signer.LoadSignState(path.Join(stateDir, fmt.Sprintf("%s_priv_validator_state.json", config.ChainID))); err != nil {
		return
	}
	share, err = signer.LoadSignState(path.Join(stateDir, fmt.Sprintf("%s_share_sign_state.json", config.ChainID)))
	return
}

func isRunning""")]),
]
