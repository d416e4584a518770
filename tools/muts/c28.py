L="signer/local_cosigner.go"; K="signer/cosigner_key_shares.go"; R="signer/remote_signer.go"
RD="""	secret := make([]byte, 32)
	if _, err := rand.Read(secret); err != nil {
		return HrsMetadata{}, err
	}
"""
IMP='	"crypto/rand"\n'
M=[
("c28-math","C28",[(L,RD,"""	secret := make([]byte, 32)
	mrand.New(mrand.NewSource(time.Now().UnixNano())).Read(secret)
	if _, err := rand.Read(nil); err != nil {
		return HrsMetadata{}, err
	}
"""),(L,IMP,IMP+'	mrand "math/rand"\n')]),
("c28-mathread","C28",[(L,"rand.Read(secret)","mrand.Read(secret)"),(L,IMP,IMP+'	mrand "math/rand"\n')]),
("c28-ignore","C28",[(L,RD,"	secret := make([]byte, 32)\n	_, _ = rand.Read(secret)\n")]),
("c28-log","C28",[(L,"		return HrsMetadata{}, err\n	}\n\n	meta = ","		meta.Secret = nil\n	}\n\n	meta = ")]),
("c28-part","C28",[(L,"rand.Read(secret)","rand.Read(secret[:16])")]),
("c28-part2","C28",[(L,"rand.Read(secret)","rand.Read(secret[1:])")]),
("c28-short","C28",[(L,"make([]byte, 32)\n	if _, err := rand","make([]byte, 8)\n	if _, err := rand")]),
("c28-hash","C28",[(L,"		Secret: secret,","		Secret: hsh[:],"),(L,"	meta = HrsMetadata{\n		Secret","	hsh := sha256.Sum256([]byte(fmt.Sprint(hrsKey, cosigner.key.ShareKey)))\n	meta = HrsMetadata{\n		Secret")]),
("c28-xor","C28",[(L,"	meta = HrsMetadata{\n		Secret","	secret[31] = 0\n	for i := 0; i < 16; i++ {\n		secret[i] = byte(hrsKey.Height)\n	}\n	meta = HrsMetadata{\n		Secret")]),
("c28-bits","C28",[(K,"bitSize := 4096","bitSize := 1024")]),
("c28-bits2","C28",[(K,"rand.Reader, bitSize","rand.Reader, bitSize/num")]),
("c28-genskip","C28",[(K,"			return rsaKeys, pubKeys, err\n","			return rsaKeys, pubKeys, nil\n")]),
("c28-reader","C28",[(K,"rsa.GenerateKey(rand.Reader","rsa.GenerateKey(mrand.New(mrand.NewSource(int64(num)))"),(K,IMP,''),(K,'	"crypto/rsa"\n','	"crypto/rsa"\n	mrand "math/rand"\n')]),
("c28-sigerr","C28",[(L,"digest[:], nil)\n		if err != nil {\n			return res, err\n		}","digest[:], nil)\n		if err != nil {\n			signature = nil\n		}")]),
("c28-replace","C28",[(K,"	rsaKeys = make([]*rsa.PrivateKey, num)","	rand.Reader = bufio.NewReader(rand.Reader)\n	rsaKeys = make([]*rsa.PrivateKey, num)"),(K,IMP,'	"bufio"\n'+IMP)]),
("c28-conn","C28",[(R,"tmCryptoEd2219.GenPrivKey()","tmCryptoEd2219.GenPrivKeyFromSecret([]byte(chainID))")]),
("c28-conn2","C28",[(R,"tmP2pConn.MakeSecretConnection(netConn, rs.privKey)","tmP2pConn.MakeSecretConnection(netConn, tmCryptoEd2219.GenPrivKeyFromSecret([]byte(rs.address)))")]),
("c28-k-full","=C28",[(L,"rand.Read(secret)","io.ReadFull(rand.Reader, secret)"),(L,IMP,IMP+'	"io"\n')]),
("c28-k-helper","=C28",[(L,RD,"	secret, err := newSecret()\n	if err != nil {\n		return HrsMetadata{}, err\n	}\n"),(L,"func (cosigner *LocalCosigner) dealShares(","func newSecret() ([]byte, error) {\n	var b [32]byte\n	if _, err := rand.Read(b[:]); err != nil {\n		return nil, err\n	}\n	return b[:], nil\n}\n\nfunc (cosigner *LocalCosigner) dealShares(")]),
("c28-k-const","=C28",[(K,"		bitSize := 4096\n",""),(K,"func makeRSAKeys","const bitSize = 4096\n\nfunc makeRSAKeys")]),
("c28-k-conn","=C28",[(R,"rs.privKey)\n","key)\n"),(R,"	var conn net.Conn\n","	var conn net.Conn\n	key := rs.privKey\n")]),
("c28-k-one","=C28",[(K,"""		rsaKey, err := rsa.GenerateKey(rand.Reader, bitSize)
		if err != nil {
			return rsaKeys, pubKeys, err
		}
""","""		rsaKey, err := newKey(bitSize)
		if err != nil {
			return nil, nil, err
		}
"""),(K,"func makeRSAKeys","func newKey(n int) (*rsa.PrivateKey, error) {\n	if n < 2048 {\n		n = 2048\n	}\n	return rsa.GenerateKey(rand.Reader, n)\n}\n\nfunc makeRSAKeys")]),
]
