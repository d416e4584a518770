id='C33-quorum-only'; prop='C33'; pkg='cmd/horcrux/cmd'; helper=False
needs='the leader is a peer that is listed after the first threshold - 1 ones'
breaks='elect asks only as many cosigners as the threshold, so it cannot reach a leader that is not among them.'
edits=[('cmd/horcrux/cmd/leader_election.go','''		for _, peer := range config.CosignerConfig.Peers {
''','''		for _, peer := range config.CosignerConfig.Peers {
			// a quorum knows who leads
			if len(grpcAddresses) >= config.CosignerConfig.Threshold {
				break
			}
''')]
test=open('/verif/tools/bugs/C33-elect-zero.py').read().split("test='''")[1].split("'''")[0].replace('ARG','"3"')
