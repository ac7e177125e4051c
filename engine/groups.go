package main

// Groups of runs; a group's "+" holds what the thorough tier adds.
var groups = map[string]string{
	// every packet type with small bodies and all options
	"pkts": `
Pkt:tag=0,n=4,debug=2 Pkt:tag=1,n=14,few=1,mlen=3,debug=2 Pkt:tag=2,n=3,debug=2 Pkt:tag=3,n=14,few=1,mlen=2,debug=2
Pkt:tag=4,n=14,few=1,debug=2 Pkt:tag=9,n=4,debug=2 Pkt:tag=10,n=4,debug=2 Pkt:tag=11,n=9,mlen=3,debug=2 Pkt:tag=12,n=4,debug=2
Pkt:tag=13,n=4,debug=2 Pkt:tag=15,n=3,debug=2 Pkt:tag=18,n=4,debug=2 Pkt:tag=19,n=4,debug=2 Pkt:tag=20,n=22,few=1,debug=2 Pkt:tag=61,n=4,debug=2
Pkt:tag=60,n=2 Pkt:tag=62,n=2 Pkt:tag=63,n=2 Pkt:tag=16,n=2 Pkt:tag=21,n=2 Pkt:tag=59,n=2`,
	// numbers of the public-key algorithms
	"mats": `
Pkt:tag=6,n=18,b0=4,mlen=1,few=1,debug=2 Pkt:tag=14,n=16,b0=3,mlen=1,few=1,debug=2 Pkt:tag=6,n=20,b0=5,mlen=8,few=1
Pkt:tag=14,n=17,b0=4,mlen=4,few=1,pub=18,debug=2 Pkt:tag=14,n=3 Sig:n=8,few=1 Pkt:tag=2,b0=3,n=20,few=1,mlen=5 Pkt:tag=1,n=18,few=1,mlen=3`,
	// secret keys
	"secs": `
Sec:v=3,n=6,few=1,mlen=1,opts=0 Sec:v=4,n=6,b0=0,few=1,mlen=1,debug=2 Sec:tag=7,v=4,n=34,b0=254,few=1,mlen=2,pub=17
Sec:v=4,n=34,b0=253,few=1,mlen=2,pub=1,opts=0,debug=2 Sec:v=4,n=34,b0=255,few=1,mlen=2,pub=18,opts=0 Sec:v=4,n=20,few=1,b0=9,pub=22,debug=2
Sec:tag=7,v=5,b0=0,n=12,few=1,mlen=5,opts=0 Sec:v=5,n=34,b0=253,few=1,mset=2,pub=1,opts=0 Sec:v=5,n=34,b0=254,few=1,mset=2,pub=17,opts=0
Sec:v=5,n=26,b0=9,few=1,mset=2,pub=19,debug=2 Sec:v=6,n=3,few=1,opts=0`,
	// the material of each algorithm in secret keys
	"plain": `Sec:v=4,b0=0,n=16,mlen=2,pub=1 Sec:v=4,b0=0,n=8,mlen=3,pub=16 Sec:tag=7,v=4,b0=0,n=8,mlen=3,pub=17 Sec:v=4,b0=0,n=8,mlen=3,pub=18 Sec:v=4,b0=0,n=8,mlen=3,pub=19 Sec:v=4,b0=0,n=8,mlen=3,pub=22 Sec:v=4,b0=0,n=8,mlen=3,pub=99`,
	// block and nonce sizes of all symmetric and AEAD algorithms
	"ivs": `Sec:v=4,n=22,b0=255,few=1,all=2,pub=17,opts=0,s2k=0 Sec:v=4,n=18,few=1,all=2,pub=17,opts=0,b0=10 Pkt:tag=20,n=22,few=1,all=5,opts=0 Pkt:tag=20,n=8,few=1,all=2,opts=0`,
	// subpackets, each type
	"subs": `
Sub:n=2,few=1,nt=27 Sub:tag=17,n=6,debug=2 Sub:typ=2,n=5,debug=2 Sub:typ=3,n=5,debug=2 Sub:typ=9,n=5,debug=2 Sub:typ=4,n=3,debug=2
Sub:typ=5,n=3,debug=2 Sub:typ=6,n=3,debug=2 Sub:typ=24,n=3 Sub:typ=26,n=3 Sub:typ=28,n=3 Sub:typ=7,n=2 Sub:typ=11,n=3,few=1
Sub:typ=12,n=4,few=1 Sub:typ=12,lo=22,n=22,few=1 Sub:typ=16,n=9 Sub:typ=20,n=10,mlen=3 Sub:typ=21,n=3,few=1 Sub:typ=22,n=3,few=1
Sub:typ=34,n=3,few=1 Sub:typ=23,n=3 Sub:typ=25,n=2 Sub:typ=27,n=1 Sub:typ=27,n=3,b0=3 Sub:typ=29,n=3 Sub:typ=30,n=3 Sub:typ=31,n=4,few=1
Sub:typ=33,n=3 Sub:typ=33,lo=21,n=21 Sub:typ=35,n=3 Sub:typ=37,n=4 Sub:typ=38,n=4,opts=0 Sub:typ=38,n=5,b0=0,b1=202,opts=0
Sub:typ=38,n=5,b0=0,b1=180,opts=0 Sub:typ=32,n=3 Sub:typ=10,n=3,debug=2 Sub:typ=101,n=3,debug=2`,
	// lengths of subpackets, and nesting
	"areas": `Area:n=5,debug=2 Area:tag=17,n=5,debug=2 Areas Areas:tag=17 Emb:n=1,nt=27,few=1,opts=0 Emb:n=5,typ=10,debug=2`,
	// longer subpackets, most octets of lists and texts fixed
	"longsubs": `
Sub:typ=27,lo=4,n=7,b0=3,b1=0,opts=0 Sub:typ=23,lo=3,n=6,b0=128,opts=0 Sub:typ=30,lo=3,n=6,b0=7,opts=0 Sub:typ=11,lo=8,n=8,fix=7,opts=0 Sub:typ=21,lo=9,n=9,fix=8,opts=0
Sub:typ=22,lo=7,n=7,fix=6,opts=0 Sub:typ=34,lo=8,n=8,fix=7,opts=0 Sub:typ=37,lo=40,n=40,opts=0 Sub:typ=35,lo=21,n=34,opts=0 Sub:typ=33,lo=300,n=300,opts=0
Sub:typ=4,lo=6,n=6,opts=0 Sub:typ=20,lo=11,n=13,mlen=3,b0=128,b1=0,b2=0,opts=0 Sub:typ=28,lo=250,n=250,fix=246,opts=0 Sub:typ=24,lo=60,n=61,fix=58,opts=0
Sub:typ=12,lo=300,n=300,few=1,opts=0 Sub:typ=31,lo=66,n=66,few=1,opts=0 Sub:typ=16,lo=300,n=300,opts=0 Sub:typ=101,lo=9000,n=9000,opts=0 Sub:tag=17,typ=1,lo=400,n=400,opts=0
Sub:tag=17,typ=1,lo=9000,n=9000,opts=0 Sub:typ=38,n=9,b0=1,opts=0 Sub:typ=6,lo=60,n=61,fix=58,opts=0 Sub:typ=26,lo=200,n=200,fix=198,opts=0 Sub:typ=29,lo=60,n=60,fix=58,opts=0`,
	// after other packets in the same process
	"after": `
Pkt:tag=6,n=18,b0=4,mlen=2,pub=19,few=1,opts=0 Pkt:tag=4,n=14,few=1,opts=0 Sub:n=2,few=1,nt=27,opts=0 Pkt:tag=1,n=14,few=1,mlen=3,opts=0 Pkt:tag=3,n=14,few=1,mlen=2,opts=0
Pkt:tag=20,n=22,few=1,opts=0 Sec:v=4,n=20,few=1,b0=9,pub=22,opts=0 Sec:v=4,n=24,b0=255,few=1,mlen=2,pub=17,opts=0 Pkt:tag=13,n=3,text=1,opts=0 Pkt:tag=11,n=8,mlen=2,opts=0 Pkt:tag=18,n=2,opts=0 Pkt:tag=9,n=2,opts=0
Pkt:tag=6,n=10,b0=4,pub=1,few=1,mlen=1 Sub:typ=27,n=3,b0=3,opts=0 Sub:typ=3,n=4,opts=0 Sub:typ=9,n=4,opts=0 Pkt:tag=10,n=3,debug=2`,
	// large bodies
	"big": `
Pkt:tag=1,n=70000,opts=0,few=1 Pkt:tag=3,n=70000,opts=0,few=1 Pkt:tag=10,n=33000000,opts=0 Pkt:tag=11,n=70000,opts=0,mset=1 Pkt:tag=9,n=33000000,opts=0
Pkt:tag=13,n=30,opts=0 Pkt:tag=20,n=70000,opts=0,few=1 Pkt:tag=6,n=70000,b0=4,opts=0,few=1,mset=1 Pkt:tag=2,n=70000,b0=3,opts=0,few=1,mset=1 Pkt:tag=4,n=70000,opts=0,few=1
Pkt:tag=12,n=20,opts=0 Pkt:tag=18,n=33000000,opts=0 Pkt:tag=19,n=33000000,opts=0 Pkt:tag=63,n=33000000,opts=0`,
	// assigned numbers: all values of one kind at a time
	"names": `
Pkt:tag=4,n=14,few=1,all=1,opts=0,debug=2 Pkt:tag=3,n=4,few=1,all=2,opts=0,debug=2 Pkt:tag=4,n=14,few=1,all=3,opts=0,debug=2 Sub:typ=22,n=2,few=1,all=4,opts=0,debug=2
Pkt:tag=20,n=22,few=1,all=5,opts=0,debug=2 Pkt:tag=4,n=14,few=1,all=6,opts=0,debug=2 Pkt:tag=3,n=3,few=1,all=7,opts=0,debug=2 Sub:n=1,few=1,nt=27,debug=2
Sub:tag=17,n=4,debug=2 Pkt:tag=11,n=6,mlen=1,opts=0 Sub:typ=29,n=1,opts=0 Frame:n=2,opts=0 Frame:n=3,opts=0,tag=10 Pkt:tag=6,n=18,b0=4,pub=19,mlen=10,few=1,opts=0
Pkt:tag=14,n=22,b0=4,pub=18,few=1,mlen=3,all=2,opts=0 Pkt:tag=14,n=14,b0=4,pub=18,few=1,mlen=3,all=3,opts=0 Sub:typ=11,n=1,opts=0,debug=2 Sub:typ=21,n=1,opts=0,debug=2
Sub:typ=34,n=1,opts=0,debug=2 Sub:typ=31,n=2,few=1,all=1,opts=0 Sub:typ=12,n=2,few=1,all=1,opts=0 Pkt:tag=1,n=13,few=1,all=1,mlen=1,opts=0 Sig:n=3,few=1,all=6,opts=0 Sig:n=3,few=1,all=3,opts=0 Sig:n=3,few=1,all=1,opts=0 Sub:typ=33,n=2,opts=0`,
	"frames": `Frame:n=4,opts=0 Frames:n=2,m=1 Frames:n=300,m=1,opts=0,cut=0,fix=298 Frames:n=192,m=191,opts=0,cut=0,fix=190`,
	"ctx":    `Ctx:k=2,debug=2 Ctx:k=4,set=1,opts=0 Ctx:k=3,set=2,opts=0 Ctx:k=4,set=3,opts=0 Ctx:k=5,set=4,opts=0 Ctx:k=3,set=5,opts=0 Ctx:k=3,set=6,opts=0 Ctx:k=4,set=7,opts=0`,
	"times":  `Pkt:tag=11,n=6,mlen=1,debug=2 Pkt:tag=6,n=7,b0=4,few=1,debug=2 Pkt:tag=14,n=9,b0=3,few=1,debug=2 Pkt:tag=6,n=11,b0=5,few=1,mlen=1,debug=2 Pkt:tag=2,n=20,b0=3,few=1,mlen=1 Sub:typ=2,n=5,debug=2 Sub:typ=3,n=5,debug=2 Sub:typ=9,n=5,debug=2 Sec:v=4,n=4,b0=0,few=1,mlen=1`,
	"armor":  `Around:n=1,m=1 First Corrupt Long:n=150 Clear:n=2 Dearmor:n=1 NoArmor:n=3`,
	"comp":   `Comp:n=2 Comp:free=1,n=3`,
	"texts":  `Pkt:tag=13,n=4,text=1,debug=2 Pkt:tag=11,n=8,text=1,mlen=3,opts=0 Sub:typ=28,n=3,text=1 Sub:typ=6,n=3,text=1 Sub:typ=24,n=3,text=1,opts=0 Sub:typ=26,n=3,text=1,opts=0 Sub:typ=29,n=4,text=1,opts=0,b0=2 Sub:typ=20,n=11,mlen=3,text=1,opts=0,b0=128,b1=0,b2=0`,
}

const (
	kPacket = 1 << iota
	kSub
	kGroup
	kAlg
	kTime
	kExpire
	kIdent
	kBytes
	kMPI
	kText
	kRaw
	kFlag
	kNum
	kCount
)

func maskOf(k int) string { return "mask=" + itoa(k) }

var properties = map[string]*property{
	"C01": {set: "judge=0", groups: []string{"pkts|opts=2", "mats|opts=2", "secs|opts=0,debug=0", "plain|opts=2", "subs|opts=2,debug=0", "longsubs", "areas|opts=2,debug=0", "big", "ctx|opts=2", "frames", "comp|opts=2", "texts|opts=2", "Many:kind=1,n=1,opts=2", "Many:kind=4,n=9,opts=0"}},
	"C02": {set: "mask=0,errs=1", groups: []string{"pkts|opts=0,debug=0", "mats|opts=0,debug=0", "secs|opts=0,debug=0", "plain|opts=0", "subs|opts=0,debug=0", "longsubs", "areas|opts=0,debug=0", "big", "frames|opts=0", "Many:kind=9,n=40000,opts=0,steps=30", "Many:kind=2,n=70000,opts=0,steps=50", "Many:kind=4,n=9,opts=0"}},
	"C03": {set: maskOf(kPacket) + ",errs=1", groups: []string{"frames", "Frame:n=3,nl=1", "Many:kind=0", "Many:kind=1,n=8,opts=0", "Many:kind=2,n=70000,opts=0,steps=50"}},
	"C04": {set: maskOf(kPacket | kSub | kRaw), groups: []string{"pkts", "mats|opts=0,debug=0", "secs|opts=0,debug=1", "big", "areas", "longsubs"}},
	"C05": {set: maskOf(kIdent | kBytes | kCount), groups: []string{"pkts", "secs", "ivs", "Sub:typ=12,n=4,few=1", "Sub:typ=12,lo=22,n=22,few=1", "Sub:typ=16,n=9", "Sub:typ=31,n=4,few=1", "Sub:typ=33,n=3", "Sub:typ=33,lo=21,n=21", "Sub:typ=35,n=3", "Sig:n=8,few=1", "Pkt:tag=2,b0=3,n=20,few=1,mlen=5"}},
	"C06": {set: maskOf(kMPI), groups: []string{"mats", "plain", "Pkt:tag=6,n=70000,b0=4,opts=0,few=1,mset=1", "Pkt:tag=2,n=70000,b0=3,opts=0,few=1,mset=1", "Pkt:tag=1,n=70000,opts=0,few=1"}},
	"C07": {set: maskOf(kAlg | kPacket | kSub), groups: []string{"names"}},
	"C08": {set: "dumps=2", groups: []string{"Many:kind=10,n=1100000,opts=2,steps=400", "pkts|debug=2", "mats|debug=2", "secs|debug=0", "plain|debug=0", "subs", "areas|debug=0", "Many:kind=2,n=70000,opts=2,steps=100", "Many:kind=2,n=70000,opts=0,steps=50"}, thorough: []string{"Many:kind=10,n=1100000,opts=2,steps=400,tag=1", "Many:kind=10,n=1100000,opts=2,steps=400,tag=2"}},
	"C09": {set: maskOf(kTime | kExpire), groups: []string{"times", "Ctx:k=2,debug=2,set=2"}},
	"C10": {set: maskOf(kRaw | kExpire | kTime), groups: []string{"ctx"}},
	"C11": {groups: []string{"Many:kind=7,n=307200,opts=0,steps=100", "armor", "Many:kind=6,n=1100,opts=0"}},
	"C12": {groups: []string{"Text:n=1,chain=4", "JSON:n=1"}},
	"C13": {groups: []string{"hnet.Hkp:n=2", "hnet.GhUser:n=3", "hnet.GhKey:n=2,totals=3", "hnet.GhKey:paging=1", "hnet.GhKey:paging=2", "hnet.Cmd"}},
	"C14": {groups: []string{"hnet.Cli:flags=0,any=1,inputs=13", "hnet.Cli:flags=1,inputs=13", "hnet.Cli:flags=9"}, thorough: []string{"hnet.Cli:flags=2"}},
	"C15": {groups: []string{"Cursor:n=2,k=2", "Cursor:n=12,k=1"}, thorough: []string{"Cursor:n=12,k=2", "Cursor:n=3,k=3"}},
	"C16": {groups: []string{"Chunk:cuts=2", "Again", "after|after=1", "Many:kind=1,n=8,opts=0"}},
	"C17": {groups: []string{"secs", "plain", "ivs", "Sec:v=4,n=44,b0=255,few=1,mset=2,pub=17,opts=0,s2k=101", "Sec:v=4,n=44,b0=254,few=1,mset=2,pub=17,opts=0,s2k=101"}},
	"C18": {set: "errs=1", groups: []string{"comp", "Many:kind=5,n=300"}},
	"C19": {groups: []string{"subs", "areas", "longsubs", "Many:kind=3,n=40,opts=0", "Many:kind=3,n=300,opts=0,steps=20", "Many:kind=4,n=9,opts=0", "Many:kind=9,n=40000,opts=0,steps=30"}},
	"C21": {groups: []string{"Errs:case=0", "Errs:case=1,n=3", "Errs:case=2", "Errs:case=3", "Nil", "hnet.GhUser:n=3,cause=1", "hnet.Hkp:n=1,cause=1", "hnet.GhKey:paging=1,cause=1"}},
	"C22": {groups: []string{"OptAPI:case=0", "OptAPI:case=1", "OptAPI:case=2", "OptAPI:case=3", "OptAPI:case=4,k=4"}, thorough: []string{"OptAPI:case=0,k=3"}},
	"C20": {set: maskOf(kText), groups: []string{"texts", "Many:kind=8,n=40000,opts=0,steps=20"}},
}
