C="cmd/horcrux/cmd/config.go"; S="cmd/horcrux/cmd/state.go"; G="cmd/horcrux/cmd/signer.go"; K="cmd/horcrux/cmd/cosigner.go"
RS="""			if isCosigner {
				if err = os.Rename(shareOldPath, shareNewPath); err != nil {
					return moveBack(err, pvNewPath, pvOldPath)
				}
			}
"""
RP="""			if err = os.Rename(pvOldPath, pvNewPath); err != nil {
				return err
			}
"""
CS="""			if isCosigner {
				if _, err = os.Stat(shareNewPath); !os.IsNotExist(err) {
					return fmt.Errorf("cannot move the sign state, %s already exists", shareNewPath)
				}
			}
"""
CP="""			if _, err = os.Stat(pvNewPath); !os.IsNotExist(err) {
				return fmt.Errorf("cannot move the sign state, %s already exists", pvNewPath)
			}
"""
W="""			config.ChainID = args[0]
			if err = writeConfigFile(path.Join(home, "config.yaml"), config); err != nil {
				if isCosigner {
					err = moveBack(err, shareNewPath, shareOldPath)
				}
				return moveBack(err, pvNewPath, pvOldPath)
			}
			return nil
"""
M=[
("c27-noshare","C27",[(C,RS,"")]),
("c27-noback","C27",[(C,"					return moveBack(err, pvNewPath, pvOldPath)\n				}\n			}\n","					return err\n				}\n			}\n")]),
("c27-ignore","C27",[(C,RP,"			_ = os.Rename(pvOldPath, pvNewPath)\n")]),
("c27-overpv","C27",[(C,CP,"")]),
("c27-overshare","C27",[(C,CS,"")]),
("c27-exists","C27",[(C,"_, err = os.Stat(shareNewPath); !os.IsNotExist(err)","_, err = os.Stat(shareNewPath); err == nil")]),
("c27-checkold","C27",[(C,"_, err = os.Stat(shareNewPath)","_, err = os.Stat(pvNewPath)")]),
("c27-cross","C27",[(C,"os.Rename(shareOldPath, shareNewPath)","os.Rename(pvOldPath, shareNewPath)")]),
("c27-cosinv","C27",[(C,"isCosigner := config.CosignerConfig != nil","isCosigner := config.CosignerConfig != nil && len(config.CosignerConfig.Peers) > 1")]),
("c27-first","C27",[(C,W,"			return nil\n"),(C,CP,W.replace("				if isCosigner {\n					err = moveBack(err, shareNewPath, shareOldPath)\n				}\n				return moveBack(err, pvNewPath, pvOldPath)\n","				return err\n").replace("			return nil\n","")+CP),(C,"			// The sign states move","			isCosigner := config.CosignerConfig != nil\n			// The sign states move"),(C,"			// Only cosigners have a share sign state.\n			isCosigner := config.CosignerConfig != nil\n","")]),
("c27-wnoback","C27",[(C,"				return moveBack(err, pvNewPath, pvOldPath)\n			}\n			return nil","				return err\n			}\n			return nil")]),
("c27-wignore","C27",[(C,W,"			config.ChainID = args[0]\n			_ = writeConfigFile(path.Join(home, \"config.yaml\"), config)\n			return nil\n")]),
("c27-nowrite","C27",[(C,W,"			config.ChainID = args[0]\n			return nil\n")]),
("c27-badback","C27",[(C,"os.Rename(newPath, oldPath)","os.Rename(oldPath, newPath)")]),
("c27-sname","C27",[(S,'			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")\n			pv, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			filepath = path.Join(stateDir, config.ChainID+"_share_sign_state.json")\n			share, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			fmt','			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")\n			pv, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			filepath = path.Join(stateDir, config.ChainID+"-share_sign_state.json")\n			share, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			fmt')]),
("c27-gname","C27",[(G,'path.Join(config.HomeDir, "state")','config.HomeDir')]),
("c27-kname","C27",[(K,'"%s_priv_validator_state.json", chainID','"%s_priv_validator_state.json", strings.ToLower(chainID)')]),
("c27-iname","C27",[(C,'"%s_share_sign_state.json", cid','"%s_share_sign_state.json", config.ChainID')]),
("c27-newname","C27",[(C,'args[0]+"_share_sign_state.json"','strings.TrimSpace(args[0])+"_share_sign_state.json"')]),
("c27-trim","C27",[(C,'			config.ChainID = args[0]\n','			config.ChainID = strings.ToLower(args[0])\n')]),
("c27-skipmissing","C27",[(C,"if err = os.Rename(shareOldPath, shareNewPath); err != nil {","if err = os.Rename(shareOldPath, shareNewPath); err != nil && !os.IsNotExist(err) {")]),
("c27-copy","C27",[(C,"			if err = os.Rename(pvOldPath, pvNewPath); err != nil {\n				return err\n			}\n","			if _, err = signer.LoadOrCreateSignState(pvNewPath); err != nil {\n				return err\n			}\n")]),
("c27-k-inline","=C27",[(C,"					return moveBack(err, pvNewPath, pvOldPath)\n				}\n			}\n","					if undo := os.Rename(pvNewPath, pvOldPath); undo != nil {\n						return fmt.Errorf(\"%v: %w\", undo, err)\n					}\n					return err\n				}\n			}\n")]),
("c27-k-name","=C27",[(C,'config.ChainID+"_share_sign_state.json"','fmt.Sprintf("%s_share_sign_state.json", config.ChainID)'),(K,'fmt.Sprintf("%s_share_sign_state.json", chainID)','chainID + "_share_sign_state.json"')]),
("c27-k-order","=C27",[(C,CP+CS,CS+CP)]),
("c27-k-orderfirst","=C27",[(C,RP+RS,"""			if isCosigner {
				if err = os.Rename(shareOldPath, shareNewPath); err != nil {
					return err
				}
			}
			if err = os.Rename(pvOldPath, pvNewPath); err != nil {
				if isCosigner {
					return moveBack(err, shareNewPath, shareOldPath)
				}
				return err
			}
""")]),
("c27-k-helper","=C27",[(C,CP+CS,"""			if err = mustBeFree(pvNewPath); err != nil {
				return err
			}
			if isCosigner {
				if err = mustBeFree(shareNewPath); err != nil {
					return err
				}
			}
"""),(C,"func moveBack","func moveBack0() {}\n\nfunc mustBeFree(p string) error {\n	_, err := os.Stat(p)\n	if os.IsNotExist(err) {\n		return nil\n	}\n	return fmt.Errorf(\"%s already exists\", p)\n}\n\nfunc moveBack")]),
("c27-k-loop","=C27",[(C,CP+CS,"""			targets := []string{pvNewPath}
			if isCosigner {
				targets = append(targets, shareNewPath)
			}
			for _, t := range targets {
				if _, err = os.Stat(t); !os.IsNotExist(err) {
					return fmt.Errorf("cannot move the sign state, %s already exists", t)
				}
			}
""")]),
("c27-k-copycfg","=C27",[(C,"			config.ChainID = args[0]\n			if err = writeConfigFile(path.Join(home, \"config.yaml\"), config); err != nil {","			changed := *config\n			changed.ChainID = args[0]\n			if err = writeConfigFile(path.Join(home, \"config.yaml\"), &changed); err != nil {")]),
("c27-k-nodir","=C27",[(C,'stateDir+"','stateDir+"')] if False else [(C,'			pvOldPath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")','			old := config.ChainID\n			pvOldPath := path.Join(home, "state", old+"_priv_validator_state.json")')]),
]
