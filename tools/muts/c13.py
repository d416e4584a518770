T="signer/threshold_validator.go"; R="signer/raft_store.go"; E="signer/raft_events.go"
M=[
("c13-noemit-same","C13",[(T,"		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {\n			return nil, stamp, err\n		}\n","		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {\n			return nil, stamp, err\n		}\n		return signature, stamp, nil\n")]),
("c13-go","C13",[(T,"""	err = pv.raftStore.Emit(raftEventLSS, newLss)
	if err != nil {
		pv.logger.Error("Error emitting LSS", err.Error())
	}
""","""	go func() {
		if err := pv.raftStore.Emit(raftEventLSS, newLss); err != nil {
			pv.logger.Error("Error emitting LSS", err.Error())
		}
	}()
""")]),
("c13-nobytes","C13",[(T,"pv.raftStore.Emit(raftEventLSS, newLss)","pv.raftStore.Emit(raftEventLSS, SignStateConsensus{Height: height, Round: round, Step: step, Signature: signature})")]),
("c13-nowait","C13",[(R,"""	f := s.raft.Apply(b, s.RaftTimeout)
	return f.Error()
}

// Delete""","""	s.raft.Apply(b, s.RaftTimeout)
	return nil
}

// Delete""")]),
("c13-onlytv","C13",[(E,"	_ = f.cosigner.SaveLastSignedState(*lss)\n","")]),
("c13-chain","C13",[(E,"	_ = f.thresholdValidator.SaveLastSignedState(*lss)\n","	if err := f.thresholdValidator.SaveLastSignedState(*lss); err != nil {\n		return\n	}\n")]),
("c13-retain","C13",[(E,"return key != raftEventLSS","return true")]),
("c13-emptyval","C13",[(R,"	for k, v := range f.m {\n		o[k] = v\n","	for k, v := range f.m {\n		if v == \"\" {\n			continue\n		}\n		o[k] = v\n")]),
("c13-alias","C13",[(R,"	return &fsmSnapshot{store: o,","	return &fsmSnapshot{store: f.m,"),(R,"		o[k] = v\n","		o[k] = v\n		_ = o\n")]),
("c13-merge","C13",[(R,"	o := make(map[string]string)\n	if err := json.NewDecoder(rc).Decode(&o); err != nil {\n		return err\n	}\n\n","	f.mu.Lock()\n	defer f.mu.Unlock()\n	return json.NewDecoder(rc).Decode(&f.m)\n}\n\nfunc (f *fsm) unused(o map[string]string) error {\n")]),
("c13-merge2","C13",[(R,"	f.m = o\n	return nil","	for k, v := range o {\n		f.m[k] = v\n	}\n	return nil")]),
("c13-restoreerr","C13",[(R,"	if err := json.NewDecoder(rc).Decode(&o); err != nil {\n		return err\n	}\n\n	// Set","	err := json.NewDecoder(rc).Decode(&o)\n\n	// Set"),(R,"	f.m = o\n	return nil","	f.m = o\n	return err")]),
("c13-delempty","C13",[(R,"	delete(f.m, key)\n","	f.m[key] = \"\"\n")]),
("c13-delevent","C13",[(R,"	defer f.mu.Unlock()\n	delete(f.m, key)\n","	defer f.mu.Unlock()\n	if f.shouldRetain(key) {\n		return nil\n	}\n	delete(f.m, key)\n")]),
("c13-retainfirst","C13",[(R,"	eventHandler := f.getEventHandler(key)\n	if eventHandler != nil {\n		eventHandler(value)\n	}\n	if !f.shouldRetain(key) {\n		return nil\n	}\n","	if old := f.m[key]; old == value {\n		return nil\n	}\n	eventHandler := f.getEventHandler(key)\n	if eventHandler != nil {\n		eventHandler(value)\n	}\n	if !f.shouldRetain(key) {\n		return nil\n	}\n")]),
("c13-setkey","C13",[(R,"		Op:  \"delete\",","		Op:  \"set\",")]),
("c13-persist","C13",[(R,"		if _, err := sink.Write(b); err != nil {\n			return err\n		}","		_, _ = sink.Write(b)")]),
("c13-lower","C13",[(E,"	_ = f.thresholdValidator.SaveLastSignedState(*lss)","	if lss.Height > f.thresholdValidator.lastSignState.Height {\n	_ = f.thresholdValidator.SaveLastSignedState(*lss)\n}")]),
("c13-keep-switch","=C13",[(R,"	eventHandler := f.getEventHandler(key)\n	if eventHandler != nil {\n		eventHandler(value)\n	}\n	if !f.shouldRetain(key) {\n		return nil\n	}\n","	if key == raftEventLSS {\n		f.handleLSSEvent(value)\n		return nil\n	}\n")]),
("c13-keep-unmarshal","=C13",[(E,"	lss := &SignStateConsensus{}\n	err := json.Unmarshal([]byte(value), lss)\n	if err != nil {","	var lss SignStateConsensus\n	if err := json.Unmarshal([]byte(value), &lss); err != nil {"),(E,"	_ = f.thresholdValidator.SaveLastSignedState(*lss)\n	_ = f.cosigner.SaveLastSignedState(*lss)","	f.offer(lss)"),(E,"func (f *fsm) handleLSSEvent","func (f *fsm) offer(lss SignStateConsensus) {\n	if err := f.cosigner.SaveLastSignedState(lss); err != nil {\n		f.logger.Debug(\"x\", err.Error())\n	}\n	if err := f.thresholdValidator.SaveLastSignedState(lss); err != nil {\n		f.logger.Debug(\"x\", err.Error())\n	}\n}\n\nfunc (f *fsm) handleLSSEvent")]),
("c13-keep-propose","=C13",[(R,"""	c := &command{
		Op:    "set",
		Key:   key,
		Value: value,
	}
	b, err := json.Marshal(c)
	if err != nil {
		return err
	}

	f := s.raft.Apply(b, s.RaftTimeout)
	return f.Error()
}
""","""	return s.propose(command{Op: "set", Key: key, Value: value})
}

func (s *RaftStore) propose(c command) error {
	b, err := json.Marshal(&c)
	if err != nil {
		return err
	}
	if err := s.raft.Apply(b, s.RaftTimeout).Error(); err != nil {
		return err
	}
	return nil
}
""")]),
("c13-keep-copy","=C13",[(R,"""	// Clone the map.
	o := make(map[string]string)
	for k, v := range f.m {
		o[k] = v
	}
	return &fsmSnapshot{store: o, logger: f.logger}, nil""","""	return &fsmSnapshot{store: f.copyOf(), logger: f.logger}, nil"""),(R,"func (f *fsm) applySet","""func (f *fsm) copyOf() map[string]string {
	o := make(map[string]string, len(f.m))
	for k := range f.m {
		o[k] = f.m[k]
	}
	return o
}

func (f *fsm) applySet""")]),
("c13-keep-persist","=C13",[(R,"""	err := func() error {
		// Encode data.
		b, err := json.Marshal(f.store)
		if err != nil {
			return err
		}

		// Write data to sink.
		if _, err := sink.Write(b); err != nil {
			return err
		}

		// Close the sink.
		return sink.Close()
	}()
""","""	b, err := json.Marshal(f.store)
	if err == nil {
		_, err = sink.Write(b)
	}
	if err == nil {
		err = sink.Close()
	}
""")]),
]
