S="signer/remote_signer.go"
NC="				netConn.Close()\n"
RD="""			rs.Logger.Error("readMsg", "err", err)
			conn.Close()
			conn = nil
			continue
"""
WR="""			rs.Logger.Error("writeMsg", "err", err)
			conn.Close()
			conn = nil
"""
HS="""				conn = nil
				netConn.Close()
				rs.Logger.Error("Secret Conn", "err", err)
				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
				time.Sleep(time.Second * 3)
				continue
"""
M=[
("c24-noclosehs","C24",[(S,NC,"")]),
("c24-nosleep","C24",[(S,HS,HS.replace("				time.Sleep(time.Second * 3)\n",""))]),
("c24-nosleepdial","C24",[(S,'				rs.Logger.Error("Dialing", "err", err)\n				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)\n				time.Sleep(time.Second * 3)\n','				rs.Logger.Error("Dialing", "err", err)\n')]),
("c24-keepconn","C24",[(S,"				conn = nil\n				netConn","				netConn")]),
("c24-readnoclose","C24",[(S,RD,RD.replace("			conn.Close()\n",""))]),
("c24-readnonil","C24",[(S,RD,RD.replace("			conn = nil\n",""))]),
("c24-writenonil","C24",[(S,WR,WR.replace("			conn = nil\n",""))]),
("c24-writenoclose","C24",[(S,WR,WR.replace("			conn.Close()\n",""))]),
("c24-writekeep","C24",[(S,WR,'			rs.Logger.Error("writeMsg", "err", err)\n')]),
("c24-readret","C24",[(S,RD,RD.replace("continue","return"))]),
("c24-readcont","C24",[(S,RD,RD.replace("			conn.Close()\n			conn = nil\n",""))]),
("c24-stopleak","C24",[(S,"""		if !rs.IsRunning() {
			if conn != nil {
				if err := conn.Close(); err != nil {
					rs.Logger.Error("Close", "err", err.Error()+"closing listener failed")
				}
			}
			return
		}
""","""		if !rs.IsRunning() {
			return
		}
""")]),
("c24-stopleak2","C24",[(S,"""		// since dialing can take time, we check running again
		if !rs.IsRunning() {
			if err := conn.Close(); err != nil {
				rs.Logger.Error("Close", "err", err.Error()+"closing listener failed")
			}
			return
		}
""","""		if !rs.IsRunning() {
			return
		}
""")]),
("c24-breakall","C24",[(S,'				rs.Logger.Error("Dialing", "err", err)\n','				rs.Logger.Error("Dialing", "err", err)\n				if errors.Is(err, net.ErrClosed) {\n					return\n				}\n')]),
("c24-timeoutkeep","C24",[(S,RD,"""			rs.Logger.Error("readMsg", "err", err)
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				continue
			}
			conn.Close()
			conn = nil
			continue
""")]),
("c24-closeunk","C24",[(S,"		res := rs.handleRequest(req)\n","		res := rs.handleRequest(req)\n		if res.Sum == nil {\n			conn.Close()\n			conn = nil\n			continue\n		}\n")]),
("c24-double","C24",[(S,RD,RD.replace("			conn.Close()\n","			conn.Close()\n			conn.Close()\n"))]),
("c24-defer","C24",[(S,"			rs.Logger.Info(\"Connected\"","			defer netConn.Close()\n			rs.Logger.Info(\"Connected\"")]),
("c24-panic","C24",[(S,'				rs.Logger.Error("Secret Conn", "err", err)\n','				panic(err)\n')]),
("c24-maxretry","C24",[(S,"		for conn == nil {","		for tries := 0; conn == nil; tries++ {\n			if tries > 100 {\n				return\n			}")]),
("c24-onceloop","C24",[(S,"		for conn == nil {","		for i := 0; conn == nil && i < 1000; i++ {")]),
("c24-k-if","=C24",[(S,"		req, err := ReadMsg(conn)\n		if err != nil {","		var req tmProtoPrivval.Message\n		var err error\n		if req, err = ReadMsg(conn); err != nil {")]),
("c24-k-helper","=C24",[(S,HS,"""				netConn.Close()
				conn = nil
				rs.Logger.Error("Secret Conn", "err", err)
				rs.pause()
				continue
"""),(S,"func (rs *ReconnRemoteSigner) handleRequest","func (rs *ReconnRemoteSigner) pause() {\n	rs.Logger.Info(\"Retrying\")\n	time.Sleep(3 * time.Second)\n}\n\nfunc (rs *ReconnRemoteSigner) handleRequest")]),
("c24-k-dialfn","=C24",[(S,"""			proto, address := tmNet.ProtocolAndAddress(rs.address)
			netConn, err := rs.dialer.Dial(proto, address)
			if err != nil {
				rs.Logger.Error("Dialing", "err", err)
				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
				time.Sleep(time.Second * 3)
				continue
			}

			rs.Logger.Info("Connected", "address", rs.address)
			conn, err = tmP2pConn.MakeSecretConnection(netConn, rs.privKey)
			if err != nil {
"""+HS+"			}\n","""			var err error
			if conn, err = rs.connect(); err != nil {
				conn = nil
				rs.Logger.Error("Connecting", "err", err)
				time.Sleep(time.Second * 3)
			}
"""),(S,"func (rs *ReconnRemoteSigner) handleRequest","""func (rs *ReconnRemoteSigner) connect() (net.Conn, error) {
	proto, address := tmNet.ProtocolAndAddress(rs.address)
	netConn, err := rs.dialer.Dial(proto, address)
	if err != nil {
		return nil, err
	}
	conn, err := tmP2pConn.MakeSecretConnection(netConn, rs.privKey)
	if err != nil {
		netConn.Close()
		return nil, err
	}
	return conn, nil
}

func (rs *ReconnRemoteSigner) handleRequest""")]),
("c24-k-drop","=C24",[(S,RD,'			rs.Logger.Error("readMsg", "err", err)\n			conn = rs.drop(conn)\n			continue\n'),(S,WR,'			rs.Logger.Error("writeMsg", "err", err)\n			conn = rs.drop(conn)\n'),(S,"func (rs *ReconnRemoteSigner) handleRequest","func (rs *ReconnRemoteSigner) drop(c net.Conn) net.Conn {\n	if c != nil {\n		c.Close()\n	}\n	return nil\n}\n\nfunc (rs *ReconnRemoteSigner) handleRequest")]),
("c24-k-forcond","=C24",[(S,"""	for {
		if !rs.IsRunning() {
			if conn != nil {
				if err := conn.Close(); err != nil {
					rs.Logger.Error("Close", "err", err.Error()+"closing listener failed")
				}
			}
			return
		}

		for conn""","""	defer func() {
		if conn != nil {
			conn.Close()
		}
	}()
	for rs.IsRunning() {
		for conn"""),(S,"""			if err := conn.Close(); err != nil {
				rs.Logger.Error("Close", "err", err.Error()+"closing listener failed")
			}
			return
		}

		req""","""			return
		}

		req""")]),
("c24-k-select","=C24",[(S,HS,HS.replace("				time.Sleep(time.Second * 3)\n","				<-time.After(3 * time.Second)\n"))]),
("c24-k-serve","=C24",[(S,"""		req, err := ReadMsg(conn)
		if err != nil {
"""+RD+"""		}

		// handleRequest handles request errors. We always send back a response
		res := rs.handleRequest(req)

		err = WriteMsg(conn, res)
		if err != nil {
"""+WR+"		}\n","""		if err := rs.serveOne(conn); err != nil {
			rs.Logger.Error("serve", "err", err)
			conn.Close()
			conn = nil
		}
"""),(S,"func (rs *ReconnRemoteSigner) handleRequest","""func (rs *ReconnRemoteSigner) serveOne(conn net.Conn) error {
	req, err := ReadMsg(conn)
	if err != nil {
		return fmt.Errorf("read: %w", err)
	}
	return WriteMsg(conn, rs.handleRequest(req))
}

func (rs *ReconnRemoteSigner) handleRequest""")]),
]
