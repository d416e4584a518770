RC="signer/remote_cosigner.go"; RE="signer/raft_events.go"; TV="signer/threshold_validator.go"; LE="cmd/horcrux/cmd/leader_election.go"; RS="signer/raft_store.go"
M=[
("c21-noctx","C21",[(RC,"	return context.WithTimeout(context.Background(), rpcTimeout)","	return context.WithCancel(context.Background())")]),
("c21-long","C21",[(RC,"	rpcTimeout = 4 * time.Second","	rpcTimeout = 4 * time.Hour")]),
("c21-bgctx","C21",[(RC,"	res, err := client.GetEphemeralSecretParts(context, &","	_ = context\n	res, err := client.GetEphemeralSecretParts(getBg(), &"),(RC,"func getContext() (","func getBg() context.Context { return context.Background() }\n\nfunc getContext() (")]),
("c21-noclose","C21",[(RC,"""	client, conn, err := cosigner.getGRPCClient()
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.SetE""","""	client, conn, err := cosigner.getGRPCClient()
	if err != nil {
		return nil, err
	}
	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.SetE"""),(RC,"""	return &CosignerSignResponse{
		EphemeralPublic""","""	conn.Close()
	return &CosignerSignResponse{
		EphemeralPublic""")]),
("c21-nocancel","C21",[(RE,"	defer cancelFunc()\n",""),(RE,"	return &CosignerSignBlockResponse{\n		Sig","	cancelFunc()\n	return &CosignerSignBlockResponse{\n		Sig")]),
("c21-block","C21",[(RE,"grpc.WithTransportCredentials(insecure.NewCredentials())","grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithBlock()")]),
("c21-forever","C21",[(RE,"	for i := 0; i < 30; i++ {\n","	for {\n")]),
("c21-reset","C21",[(RE,"	for i := 0; i < 30; i++ {\n		leader = string(s.GetLeader())\n","	for i := 0; i < 30; i++ {\n		leader = string(s.GetLeader())\n		if s.raft == nil {\n			i--\n		}\n")]),
("c21-seconds","C21",[(RE,"100 * time.Millisecond","100 * time.Second")]),
("c21-blockloop","C21",[(TV,"			for i := 0; i < 100; i++ {","			for {"),(TV,"				return nil, existingTimestamp, sameBlockErr\n				}\n\n			}\n			if !signAgain {\n				return nil, stamp, errors.New(\"timed out waiting for block signature from cluster\")\n			}","				return nil, existingTimestamp, sameBlockErr\n				}\n				if signAgain {\n					break\n				}\n			}")]),
("c21-wait","C21",[(TV,"	if waitUntilCompleteOrTimeout(&setEphemeralAndSignWaitGroup, 4*time.Second) {\n		return nil, stamp, errors.New(\"timed out waiting for peers to sign\")\n	}","	setEphemeralAndSignWaitGroup.Wait()")]),
("c21-notimer","C21",[(TV,"	select {\n	case <-c:\n		return false // completed normally\n	case <-time.After(timeout):\n		return true // timed out\n	}","	_ = timeout\n	<-c\n	return false")]),
("c21-apply0","C21",[(RS,"	f := s.raft.Apply(b, s.RaftTimeout)\n	return f.Error()\n}\n\n// Delete","	f := s.raft.Apply(b, 0)\n	return f.Error()\n}\n\n// Delete")]),
("c21-cli","C21",[(LE,"context.WithTimeout(context.Background(), 30*time.Second)","context.WithCancel(context.Background())")]),
("c21-nonblocking-timer","C21",[(TV,"	case <-time.After(timeout):\n","	case <-time.After(timeout * 1000):\n")]),
("c21-keep-chan","=C21",[(TV,"	case <-time.After(timeout):\n","	case <-time.NewTimer(timeout).C:\n")]),
("c21-keep-ctx","=C21",[(RC,"	return context.WithTimeout(context.Background(), rpcTimeout)","	return context.WithDeadline(context.Background(), time.Now().Add(rpcTimeout))")]),
("c21-keep-helper","=C21",[(RE,"	for i := 0; i < 30; i++ {\n		leader = string(s.GetLeader())\n		if leader != \"\" {\n			break\n		}\n		time.Sleep(100 * time.Millisecond)\n	}\n","	for tries := 30; tries > 0 && leader == \"\"; tries-- {\n		leader = string(s.GetLeader())\n		if leader == \"\" {\n			time.Sleep(100 * time.Millisecond)\n		}\n	}\n")]),
("c21-keep-deadline","=C21",[(RE,"	for i := 0; i < 30; i++ {\n		leader = string(s.GetLeader())\n		if leader != \"\" {\n			break\n		}\n		time.Sleep(100 * time.Millisecond)\n	}\n","	for start := time.Now(); time.Since(start) < 3*time.Second; time.Sleep(100 * time.Millisecond) {\n		if leader = string(s.GetLeader()); leader != \"\" {\n			break\n		}\n	}\n")]),
("c21-keep-until","=C21",[(RE,"	for i := 0; i < 30; i++ {\n		leader = string(s.GetLeader())\n		if leader != \"\" {\n			break\n		}\n		time.Sleep(100 * time.Millisecond)\n	}\n","	end := time.Now().Add(3 * time.Second)\n	for !time.Now().After(end) {\n		if leader = string(s.GetLeader()); leader != \"\" {\n			break\n		}\n		time.Sleep(100 * time.Millisecond)\n	}\n")]),
("c21-keep-explicit","=C21",[(RE,"	defer conn.Close()\n	context, cancelFunc := getContext()\n	defer cancelFunc()\n","	context, cancelFunc := getContext()\n"),(RE,"	if err != nil {\n		return nil, err\n	}\n	return &CosignerSignBlockResponse{","	cancelFunc()\n	conn.Close()\n	if err != nil {\n		return nil, err\n	}\n	return &CosignerSignBlockResponse{")]),
("c21-keep-closure","=C21",[(RE,"	defer conn.Close()\n	context, cancelFunc := getContext()\n	defer cancelFunc()\n","	context, cancelFunc := getContext()\n	defer func() {\n		cancelFunc()\n		_ = conn.Close()\n	}()\n")]),
("c21-keep-with","=C21",[(RC,"""// Implements the cosigner interface
func (cosigner *RemoteCosigner) GetEphemeralSecretParts(
	req HRSTKey) (*CosignerEphemeralSecretPartsResponse, error) {
	client, conn, err := cosigner.getGRPCClient()
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.GetEphemeralSecretParts(context, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{
		Hrst: req.toProto(),
	})
	if err != nil {
""","""func (cosigner *RemoteCosigner) with(f func(ctx context.Context, client proto.CosignerGRPCClient) error) error {
	client, conn, err := cosigner.getGRPCClient()
	if err != nil {
		return err
	}
	defer conn.Close()
	ctx, cancelFunc := getContext()
	defer cancelFunc()
	return f(ctx, client)
}

// Implements the cosigner interface
func (cosigner *RemoteCosigner) GetEphemeralSecretParts(
	req HRSTKey) (*CosignerEphemeralSecretPartsResponse, error) {
	var res *proto.CosignerGRPCGetEphemeralSecretPartsResponse
	if err := cosigner.with(func(ctx context.Context, client proto.CosignerGRPCClient) (err error) {
		res, err = client.GetEphemeralSecretParts(ctx, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{
			Hrst: req.toProto(),
		})
		return err
	}); err != nil {
""")]),
("c21-spin","C21",[(RE,"	for i := 0; i < 30; i++ {\n		leader = string(s.GetLeader())\n		if leader != \"\" {\n			break\n		}\n		time.Sleep(100 * time.Millisecond)\n	}\n","	for leader == \"\" {\n		leader = string(s.GetLeader())\n	}\n	_ = time.Now\n")]),
("c21-keep-while","=C21",[(TV,"	for idx, shareSig := range shareSignatures {\n","	for idx := 0; idx < len(shareSignatures); idx++ {\n		shareSig := shareSignatures[idx]\n")]),
("c21-keep-captured","=C21",[(TV,"	for _, peer := range pv.peers {\n		go","	for i := 0; i < len(pv.peers); i++ {\n		peer := pv.peers[i]\n		go")]),
]
