package main

// Bounds per property. Parameters are explained at the harnesses; in short:
//
//	tmpl=0 short   free keys of up to len bytes, ops free updates, optionally on
//	               top of a seed set of keys
//	tmpl=1 wide    a node with fan children (after growing to grow), with a key
//	               on the node (leaf), below a sibling (sib); free updates at it
//	tmpl=2 long    keys sharing plen bytes; free updates cutting or changing the
//	               shared part
//	tmpl=3 chain   every prefix of a plen byte key is stored
var specs = map[string]*checkSpec{
	"C01": {quick: `
C01 tmpl=0 ops=3 len=2 via=0..2
C01 tmpl=0 ops=2 len=3 via=0|2
C01 tmpl=0 ops=2 len=2 seed=1..4 via=0|2
C01 tmpl=1 fan=1..6|12..17 leaf=0..2 ops=1 via=2
C01 tmpl=1 fan=3|4|12|13|15|16|36|37|38|47|48|49|255|256 leaf=1 sib=1 ops=1 via=0 q=0
C01 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1 via=2
C01 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1 via=2
C01 tmpl=1 fan=38 grow=49 leaf=0..1 ops=1 via=0 q=0
C01 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1 via=2
C01 tmpl=2 plen=11 shape=1..2 leaf=0..1 ops=2 via=0 q=0
C01 tmpl=1 plen=3|12 fan=2|4|5|16 leaf=0..1 ops=1 via=2
C01 tmpl=1 plen=3|12 fan=17|48|49 leaf=0..1 ops=1 via=0 q=0
C01 tmpl=3 plen=2|6|12 shape=0..1 ops=1 via=2
C01 tmpl=1 sib=15|16|47|48 fan=2|5 leaf=0..1 ops=1 via=0 q=0
`, thorough: `
C01 tmpl=0 ops=4 len=2 via=2
C01 tmpl=0 ops=3 len=3 via=0
C01 tmpl=0 ops=3 len=2 seed=1..4 via=0|2
C01 tmpl=1 fan=38|47|48|49|255|256 leaf=0..1 ops=1 via=2
C01 tmpl=1 fan=4|5|16|17 leaf=0..1 ops=2 rep=1 via=0
C01 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=2 via=2 npos=1
`},
	"C02": {quick: `
C02 tmpl=0 ops=3 len=2 via=0..1 mid=0..1
C02 tmpl=0 ops=2 len=3 via=0..1
C02 tmpl=0 ops=2 len=2 seed=1..4 via=0..1
C02 tmpl=1 fan=1..6|12..17|36..38|47..49|255|256 leaf=0..2 ops=1 via=0..1
C02 tmpl=1 fan=3..5 leaf=0..1 ops=2 via=0..1
C02 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1 via=0
C02 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1 via=0
C02 tmpl=1 fan=38 grow=49 leaf=0..1 ops=1 via=0
C02 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=2 via=0..1
C02 tmpl=1 plen=3|12 fan=4|5|16|17|48|49 leaf=0..1 ops=1 via=0..1
C02 tmpl=3 plen=2|6|12 shape=0..1 ops=2 via=0..1
C02 tmpl=1 sib=15|16|47|48 fan=2|5|17 leaf=0..1 ops=1 via=0..1
`, thorough: `
C02 tmpl=0 ops=4 len=2 via=0..1
C02 tmpl=0 ops=3 len=3 via=0
C02 tmpl=0 ops=3 len=2 seed=1..4 via=0..1
C02 tmpl=1 fan=4|5|12|13|16|17 leaf=0..1 ops=2 via=0
C02 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=2 via=0..1 npos=1
`},
	"C03": {quick: `
C03 tmpl=0 ops=2 len=2 via=0..1
C03 tmpl=0 ops=2 len=3
C03 tmpl=0 ops=1 len=2 seed=1..4 via=0..1
C03 tmpl=0 ops=0 len=2 seed=1..4 after=1
C03 tmpl=1 fan=1..6|13|16 leaf=0..1 ops=0 after=1
C03 tmpl=1 fan=1..6|12..17 leaf=0..2 ops=0
C03 tmpl=1 fan=37|38|47..49|256 leaf=0..1 ops=0
C03 tmpl=1 fan=2..5 leaf=0..1 sib=1 ops=1
C03 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=0 after=1
C03 tmpl=1 fan=13 grow=17 leaf=0..1 ops=0 after=1
C03 tmpl=1 fan=38 grow=49 leaf=0..1 ops=0
C03 tmpl=2 plen=10..11 shape=0..4 leaf=0..1 ops=1
C03 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=0 after=1
C03 tmpl=1 plen=3|12 fan=4|5|16|17|48|49 leaf=0..1 ops=0
C03 tmpl=1 plen=3|12 fan=2|4|5|16 leaf=0..1 ops=0 after=1
C03 tmpl=3 plen=2|6|12 shape=0..1 ops=0 after=1
C03 tmpl=1 sib=15|16|47|48 fan=2|5|17 leaf=0..1 ops=0
`, thorough: `
C03 tmpl=0 ops=3 len=2 via=0..1
C03 tmpl=0 ops=2 len=2 seed=1..4 after=1
C03 tmpl=1 fan=4|5|12|13|16|17 leaf=0..1 ops=1
C03 tmpl=1 fan=12..17|38|47..49|255 leaf=0..1 ops=0 after=1
C03 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=2 npos=1
`},
	"C04": {quick: `
C04 tmpl=0 ops=3 len=2 via=0
C04 tmpl=0 ops=2 len=2 via=1
C04 tmpl=0 ops=2 len=3
C04 tmpl=0 ops=1 len=2 seed=1..4
C04 tmpl=1 fan=1..6|12|13|16|17 leaf=0..1 ops=1
C04 tmpl=1 fan=37|38|47..49|255|256 leaf=0..1 ops=0 sib=0..1
C04 tmpl=1 fan=37|38|47..49|255|256 leaf=1 ops=1 what=1
C04 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1
C04 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1
C04 tmpl=1 fan=38 grow=49 leaf=0..1 ops=1 what=1
C04 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1
C04 tmpl=1 plen=3|12 fan=2|4|5|16 leaf=0..1 ops=1
C04 tmpl=1 plen=3|12 fan=17|48|49 leaf=0..1 ops=0
C04 tmpl=3 plen=2|6|12 shape=0..1 ops=1
C04 tmpl=1 sib=15|16|47|48 fan=2|5|17 leaf=0..1 ops=0
C04 tmpl=0 ops=2 len=1 what=2 again=1
C04 tmpl=0 seed=1..4 ops=0 len=2 what=2 again=1
C04 tmpl=1 fan=3|5|17|49 leaf=0..1 ops=0 what=2 again=1
C04 tmpl=2 plen=11 shape=0..4 leaf=0..1 ops=0 what=2 again=1
`, thorough: `
C04 tmpl=0 ops=3 len=3 what=3
C04 tmpl=0 ops=2 len=2 seed=1..4
C04 tmpl=1 fan=4|5|16 leaf=0..1 ops=2 rep=1
C04 tmpl=1 fan=38|48|49 leaf=0..1 ops=1 what=2
C04 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=2 what=3
`},
	"C05": {quick: `
C05 tmpl=0 ops=3 len=2 via=0
C05 tmpl=0 ops=2 len=2 via=1
C05 tmpl=0 ops=2 len=3
C05 tmpl=0 ops=1 len=2 seed=1..4
C05 tmpl=1 fan=1..6|12|13|16|17 leaf=0..1 ops=1
C05 tmpl=1 fan=37|38|47..49|255|256 leaf=0..1 ops=0 sib=0..1
C05 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1
C05 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1
C05 tmpl=1 fan=38 grow=49 leaf=0..1 ops=0
C05 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1
C05 tmpl=1 plen=3|12 fan=2|4|5|16 leaf=0..1 ops=1
C05 tmpl=1 plen=3|12 fan=17|48|49 leaf=0..1 ops=0
C05 tmpl=3 plen=2|6|12 shape=0..1 ops=1
C05 tmpl=1 sib=15|16|47|48 fan=2|5|17 leaf=0..1 ops=0
C05 tmpl=0 ops=2 len=1 again=1
C05 tmpl=0 seed=1..4 ops=0 len=2 again=1
C05 tmpl=1 fan=3|5|17|49 leaf=0..1 ops=0 again=1
C05 tmpl=2 plen=11 shape=0..4 leaf=0..1 ops=0 again=1
`, thorough: `
C05 tmpl=0 ops=3 len=3
C05 tmpl=0 ops=2 len=2 seed=1..4
C05 tmpl=1 fan=38|48|49 leaf=0..1 ops=1
C05 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=2
`},
	"C06": {quick: `
C06 tmpl=0 ops=3 len=2 via=0
C06 tmpl=0 ops=2 len=2 via=1
C06 tmpl=0 ops=2 len=3
C06 tmpl=0 ops=1 len=2 seed=1..4
C06 tmpl=1 fan=1..6|12|13|16|17 leaf=0..1 ops=1 what=4
C06 tmpl=1 fan=1..6|16..17 leaf=1 ops=1 what=2
C06 tmpl=1 fan=37|38|47..49|255|256 leaf=0..1 ops=0 sib=0..1
C06 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1
C06 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1 what=5
C06 tmpl=1 fan=38 grow=49 leaf=0..1 ops=0
C06 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1
C06 tmpl=1 plen=3|12 fan=2|4|5|16 leaf=0..1 ops=1 what=4
C06 tmpl=1 plen=3|12 fan=17|48|49 leaf=0..1 ops=0
C06 tmpl=3 plen=2|6|12 shape=0..1 ops=1
C06 tmpl=1 sib=15|16|47|48 fan=2|5|17 leaf=0..1 ops=0
C06 tmpl=0 ops=1 len=1 what=6 again=1
C06 tmpl=0 seed=1..4 ops=0 len=2 what=2 again=1
C06 tmpl=0 seed=1..4 ops=0 len=2 what=4 again=1
C06 tmpl=1 fan=3|5|17|49 leaf=0..1 ops=0 what=2 again=1
C06 tmpl=1 fan=3|5|17|49 leaf=0..1 ops=0 what=4 again=1
C06 tmpl=2 plen=11 shape=0..4 leaf=0..1 ops=0 what=4 again=1
`, thorough: `
C06 tmpl=0 ops=3 len=3
C06 tmpl=0 ops=2 len=2 seed=1..4
C06 tmpl=1 fan=38|48|49 leaf=0..1 ops=1 what=4
C06 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=2
`},
	"C07": {quick: `
C07 tmpl=0 ops=3 len=2 via=0..1
C07 tmpl=0 ops=2 len=3
C07 tmpl=0 ops=2 len=2 seed=1..4
C07 tmpl=1 fan=1..6|12..17 leaf=0..2 ops=1
C07 tmpl=1 fan=37|38|47..49|255|256 leaf=0..1 ops=0 sib=0..1
C07 tmpl=1 fan=37|38|47..49|255|256 leaf=0..1 ops=1 what=1
C07 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1
C07 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1
C07 tmpl=1 fan=38 grow=49 leaf=0..1 ops=1 what=1
C07 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1
C07 tmpl=1 plen=3|12 fan=2|4|5|16|17 leaf=0..1 ops=1
C07 tmpl=1 plen=3|12 fan=48|49 leaf=0..1 ops=0
C07 tmpl=3 plen=2|6|12 shape=0..1 ops=1
C07 tmpl=1 sib=15|16|47|48 fan=2|5 leaf=0..1 ops=1
`, thorough: `
C07 tmpl=0 ops=3 len=3
C07 tmpl=0 ops=4 len=2
C07 tmpl=0 ops=3 len=2 seed=1..4
C07 tmpl=1 fan=38|48|49 leaf=0..1 ops=1 what=2
C07 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=2
`},
	"C08": {quick: `
C08 tmpl=0 ops=3 len=2 via=0..1
C08 tmpl=0 ops=2 len=3
C08 tmpl=0 ops=2 len=2 seed=1..4
C08 tmpl=1 fan=1..6|12..17 leaf=0..2 ops=1
C08 tmpl=1 fan=37|38|47..49|255|256 leaf=0..1 ops=0 sib=0..1
C08 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1
C08 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1
C08 tmpl=1 fan=38 grow=49 leaf=0..1 ops=0
C08 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1
C08 tmpl=1 plen=3|12 fan=2|4|5|16|17 leaf=0..1 ops=1
C08 tmpl=1 plen=3|12 fan=48|49 leaf=0..1 ops=0
C08 tmpl=3 plen=2|6|12 shape=0..1 ops=1
C08 tmpl=3 plen=40 shape=0..1 ops=1
C08 tmpl=1 sib=15|16|47|48 fan=2|5|17 leaf=0..1 ops=0
C08 tmpl=1 fan=48|49 leaf=1 ops=1
C08 tmpl=2 plen=11 shape=0..4 leaf=1 ops=2
`, thorough: `
C08 tmpl=0 ops=3 len=3
C08 tmpl=0 ops=4 len=2
C08 tmpl=0 ops=3 len=2 seed=1..4
C08 tmpl=1 fan=38 leaf=0..1 ops=1
C08 tmpl=1 fan=48|49 leaf=0 ops=1
C08 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=2
`},
	"C09": {quick: `
C09 tmpl=0 ops=3 len=2 via=0..4 track=0..1
C09 tmpl=0 pre=1 ops=2 len=2 via=0..4 track=0..1
C09 tmpl=0 ops=2 len=2 seed=1..4 via=0..4
C09 tmpl=1 fan=1..6|12|13|15..17 leaf=0..1 ops=1 via=0..1 track=0..1
C09 tmpl=1 fan=4|13|16 leaf=0..1 ops=1 via=2..4 sib=1
C09 tmpl=1 fan=38|47..49|256 leaf=1 ops=1 via=1 full=0
C09 tmpl=1 fan=4|5 leaf=1 ops=2 via=1|3 rep=1
C09 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1 via=1
C09 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1 via=1
C09 tmpl=1 fan=38 grow=49 leaf=0..1 ops=1 via=1 full=0
C09 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1 via=0|1|4 track=0..1
C09 tmpl=2 plen=11 shape=1..2 leaf=0..1 ops=2 via=1 full=0
C09 tmpl=1 plen=3|12 fan=2|4|5|16|17|48|49 leaf=0..1 ops=1 via=0|1 full=0
C09 tmpl=3 plen=2|6|12 shape=0..1 ops=1 via=0..4
C09 tmpl=1 sib=15|16|47|48 fan=2|5 leaf=0..1 ops=1 via=0|1 full=0
`, thorough: `
C09 tmpl=0 pre=2 ops=2 len=2 via=0..4
C09 tmpl=0 pre=1 ops=2 len=2 seed=1..4 via=0..4 track=1
C09 tmpl=1 fan=4|5|12|13|16|17 leaf=0..1 ops=2 via=0..4 rep=1 full=0
C09 tmpl=1 fan=38|47..49|255|256 leaf=0..1 ops=1 via=0..4 full=0 track=1
C09 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=2 via=0..4 full=0
`},
	"C10": {quick: `
C10 tmpl=0 ops=3 len=2 via=0..2 track=0..1
C10 tmpl=0 ops=2 len=2 seed=1..4 via=0..2 track=0..1
C10 tmpl=0 ops=3 len=1 seed=1|3 via=0..2
C10 tmpl=1 fan=2..5 leaf=0..1 ops=2 via=0..2 rep=1
C10 tmpl=1 fan=12|13|16|17 leaf=1 ops=2 via=0..1 rep=1
C10 tmpl=1 fan=48 leaf=1 ops=2 via=1 rep=1 mask=1
C10 tmpl=1 fan=49 leaf=1 ops=2 via=1 rep=1 mask=2
C10 tmpl=1 fan=4 grow=5 leaf=0..1 ops=2 via=0..2 rep=1
C10 tmpl=1 fan=13 grow=17 leaf=0..1 ops=2 via=1 rep=1
C10 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=2 via=0..2 rep=1
C10 tmpl=2 plen=11 shape=1..2 leaf=1 ops=2 via=0..2
C10 tmpl=1 plen=3|12 fan=4|5 leaf=0..1 ops=2 via=0..2 rep=1
C10 tmpl=1 plen=3|12 fan=16|17|48 leaf=1 ops=2 via=0 rep=1 mask=3
C10 tmpl=3 plen=2|6|12 shape=0..1 ops=2 via=0..2 rep=1
C10 tmpl=1 sib=15|16|47|48 fan=2|5 leaf=1 ops=2 via=1 rep=1
C10 tmpl=0 ops=2 len=2 via=0..2 look=1
C10 tmpl=0 ops=2 len=2 seed=1..4 via=0|1 look=1
C10 tmpl=1 fan=2|4|5|16 leaf=0..1 ops=2 via=0 rep=1 look=1
C10 tmpl=2 plen=11 shape=0..4 leaf=0..1 ops=2 via=0 rep=1 look=1
`, thorough: `
C10 tmpl=0 ops=4 len=2 via=0 track=0..1
C10 tmpl=0 ops=3 len=2 seed=1..4 via=0..2
C10 tmpl=1 fan=12|13|15|16|17|37|38|48|49 leaf=0..1 ops=3 via=0..2 rep=1
C10 tmpl=1 fan=255|256 leaf=0..1 ops=2 via=0..2 rep=1
C10 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=2 via=0..2
`},
	"C11": {quick: `
C11 tmpl=0 pre=2 ops=1 len=2 when=0..3 only=0..1
C11 tmpl=0 pre=1 ops=2 len=2 when=0..3
C11 tmpl=0 pre=1 ops=1 chain=2 len=2 when=0|3
C11 tmpl=0 ops=1 len=2 seed=1..4 when=0..3
C11 tmpl=0 ops=2 len=2 seed=1|3 when=0
C11 tmpl=1 fan=1..6|12|13|16|17 leaf=0..1 ops=1 when=0
C11 tmpl=1 fan=2|4|5|16 leaf=0..1 ops=1 when=1|3
C11 tmpl=1 fan=37|38|48|49 leaf=1 ops=1 when=0
C11 tmpl=1 fan=2|4|5 leaf=0..1 ops=2 rep=1 when=0
C11 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1 when=0
C11 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1 when=0
C11 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1 when=0|1|3
C11 tmpl=2 plen=11 shape=1..2 leaf=0..1 ops=2 when=0 rep=1
C11 tmpl=1 plen=3|12 fan=2|4|5|16 leaf=0..1 ops=1 when=0
C11 tmpl=3 plen=2|6|12 shape=0..1 ops=1 when=0|1|3
C11 tmpl=1 sib=15|16|47|48 fan=2|5 leaf=1 ops=1 when=0
C11 tmpl=0 seed=1..4 ops=1 chain=2 len=2 when=0 reuse=1
C11 tmpl=1 fan=4|5 leaf=1 ops=1 chain=2 when=0 reuse=1 rep=1
C11 tmpl=2 plen=11 shape=1..2 leaf=1 ops=1 chain=2 when=0 reuse=1 rep=1
C11 tmpl=0 seed=1..4 ops=2 len=1 when=0 clone=1
C11 tmpl=1 fan=4|5 leaf=1 ops=2 rep=1 when=0 clone=1
C11 tmpl=2 plen=11 shape=1..2 leaf=1 ops=2 rep=1 when=0 clone=1
`, thorough: `
C11 tmpl=0 pre=2 ops=2 len=2 when=0|1
C11 tmpl=0 pre=2 ops=1 chain=2 len=2 when=0
C11 tmpl=0 ops=2 len=2 seed=1..4 when=0..3
C11 tmpl=1 fan=12|13|16|17 leaf=0..1 ops=2 rep=1 when=0
C11 tmpl=1 fan=38|47..49|255|256 leaf=0..1 ops=1 when=0|3
C11 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=2 when=0
`},
	"C12": {quick: `
C12 tmpl=0 pre=2 ops=1 len=2 how=0
C12 tmpl=0 pre=1 ops=1 len=2 how=1..4
C12 tmpl=0 pre=1 ops=2 len=2 how=0..2
C12 tmpl=0 pre=1 ops=1 chain=2 len=2 how=0..1
C12 tmpl=0 ops=1 len=2 seed=1..4 how=0..4
C12 tmpl=0 ops=2 len=2 seed=1|3 how=0
C12 tmpl=1 fan=1..6|12|13|16|17 leaf=0..1 ops=1 how=0
C12 tmpl=1 fan=2|4|5|16 leaf=0..1 ops=1 how=1
C12 tmpl=1 fan=38|48|49 leaf=1 ops=1 how=0
C12 tmpl=1 fan=2|4|5 leaf=0..1 ops=2 rep=1 how=0
C12 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1 how=0
C12 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1 how=0
C12 tmpl=2 plen=10..11 shape=0..4 leaf=0..1 ops=1 how=0
C12 tmpl=2 plen=11 shape=1..2 leaf=1 ops=1 how=1..3
C12 tmpl=2 plen=11 shape=1..2 leaf=0..1 ops=1 chain=2 how=0 rep=1
C12 tmpl=1 plen=3|12 fan=2|4|5|16 leaf=0..1 ops=1 how=0
C12 tmpl=3 plen=2|6|12 shape=0..1 ops=1 how=0..1
C12 tmpl=1 sib=15|16|47|48 fan=2|5 leaf=1 ops=1 how=0
C12 tmpl=0 seed=1..4 ops=1 chain=2 len=2 how=0 reuse=1
C12 tmpl=1 fan=4|5 leaf=1 ops=1 chain=2 how=0 reuse=1 rep=1
C12 tmpl=2 plen=11 shape=1..2 leaf=1 ops=1 chain=2 how=0 reuse=1 rep=1
`, thorough: `
C12 tmpl=0 pre=2 ops=1 len=2 how=1..4
C12 tmpl=0 pre=2 ops=2 len=2 how=0
C12 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1 how=0..3
C12 tmpl=0 pre=2 ops=1 chain=2 len=2 how=0
C12 tmpl=0 ops=2 len=2 seed=1..4 how=0..4
C12 tmpl=1 fan=12|13|16|17 leaf=0..1 ops=2 rep=1 how=0
C12 tmpl=1 fan=38|47..49|255|256 leaf=0..1 ops=1 how=0
C12 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1 chain=2 how=0
`},
	"C13": {quick: `
C13 tmpl=0 ops=1 len=3
C13 tmpl=0 ops=2 len=2
C13 tmpl=0 ops=1 len=2 seed=1..4
C13 tmpl=1 fan=1..5 leaf=0..1 ops=0
C13 tmpl=1 fan=16|17|48|49 leaf=1 ops=0
C13 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=0
C13 tmpl=2 plen=11 shape=1..2 leaf=1 ops=1
C13 tmpl=1 plen=3|12 fan=4|16|48|49 leaf=1 ops=0
C13 tmpl=3 plen=2|6|12 ops=0
`, thorough: `
C13 tmpl=0 ops=2 len=2 via=1
C13 tmpl=0 ops=2 len=2 seed=1..4
C13 tmpl=1 fan=3..6|12|13|16|17 leaf=0..1 ops=1
C13 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=1
`},
	"C14": {quick: `
C14 tmpl=0 ops=2 len=2 call=0..2 nil=0..1
C14 tmpl=0 ops=0 len=3 call=0..2 nil=0..1
C14 tmpl=0 ops=1 len=2 seed=1..4 call=0..2
C14 tmpl=1 fan=1..6|12|13|16|17 leaf=0..1 ops=0 call=0..2
C14 tmpl=1 fan=37|38|48|49|255|256 leaf=1 ops=0 call=0..1
C14 tmpl=1 fan=2|4|5 leaf=0..1 ops=1 call=0..1
C14 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1 call=0..1
C14 tmpl=1 fan=13 grow=17 leaf=0..1 ops=0 call=0..1
C14 tmpl=1 fan=38 grow=49 leaf=0..1 ops=0 call=0
C14 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=0 call=0..2
C14 tmpl=2 plen=11 shape=1..2 leaf=0..1 ops=1 call=0..2
C14 tmpl=1 plen=3|12 fan=4|5|16|17|48|49 leaf=0..1 ops=0 call=0..1
C14 tmpl=3 plen=2|6|12 shape=0..1 ops=1 call=0..2
C14 tmpl=3 plen=40 ops=0 call=0..2
C14 tmpl=1 sib=15|16|47|48 fan=2|5 leaf=1 ops=0 call=0..2
C14 tmpl=0 ops=2 len=1 seed=1..4 call=0..2
C14 tmpl=1 fan=12|13 leaf=0..1 ops=1 call=0
C14 tmpl=2 plen=9|10|12 shape=0..4 leaf=0..1 ops=1 call=0..2
`, thorough: `
C14 tmpl=0 ops=3 len=2 call=0..2
C14 tmpl=0 ops=2 len=2 seed=1..4 call=0..2
C14 tmpl=1 fan=12|13|16|17 leaf=0..1 ops=1 call=0..1
C14 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1 call=0..1
C14 tmpl=2 plen=9..13|24 shape=0..4 leaf=0..1 ops=1 call=0..2
`},
	"C15": {race: true, quick: `
C15 tmpl=0 seed=0..4 len=1 r1=1 r2=1 writer=0
C15 tmpl=0 seed=0..4 len=1 r1=9 r2=9 writer=0
C15 tmpl=0 seed=1..4 len=2 r1=9 r2=-1 writer=1..2
C15 tmpl=0 seed=1..4 len=1 r1=9 r2=-1 writer=3..5
C15 tmpl=0 seed=1|3 len=1 r1=9 r2=1 writer=1..2
C15 tmpl=1 fan=2|4|5 leaf=1 r1=9 r2=-1 writer=2
C15 tmpl=1 fan=4 leaf=1 r1=1 r2=-1 writer=1|3|4 qfix=1
C15 tmpl=1 fan=16|48 leaf=0..1 r1=9 r2=-1 writer=1..2 mask=1 qfix=1
C15 tmpl=1 fan=5|17|49 leaf=0..1 r1=9 r2=-1 writer=1..2 mask=2 qfix=1
C15 tmpl=1 fan=48|256 leaf=1 r1=9 r2=9 writer=0 qfix=1
C15 tmpl=2 plen=11 shape=1..2 leaf=0..1 r1=9 r2=-1 writer=1..2 qfix=1
C15 tmpl=1 plen=3|12 fan=16|48 leaf=1 r1=9 r2=-1 writer=2 mask=1 qfix=1
C15 tmpl=3 plen=2|6 r1=9 r2=-1 writer=1..2 qfix=1
`, thorough: `
C15 tmpl=0 seed=1..4 len=2 r1=9 r2=9 writer=1..2
C15 tmpl=0 seed=1..4 len=2 r1=9 r2=-1 writer=3..5
C15 tmpl=0 seed=1|3 len=1 r1=9 r2=9 writer=3..5
C15 tmpl=1 fan=16|17 leaf=1 r1=9 r2=-1 writer=1..2
C15 tmpl=1 fan=48|49 leaf=1 r1=1 r2=-1 writer=2 mask=3
C15 tmpl=1 fan=4|5|13|16 leaf=0..1 r1=1 r2=1 writer=2 qfix=1
C15 tmpl=2 plen=11 shape=1..2 leaf=0..1 r1=9 r2=-1 writer=1..2
`},
	"C16": {quick: `
C16 tmpl=1 fan=1..17 leaf=0..2 ops=1
C16 tmpl=1 fan=1..6|12..17 leaf=0..1 sib=0..1 ops=0 q=1
C16 tmpl=1 fan=36..39|46..50 leaf=0..1 ops=1
C16 tmpl=1 fan=255 leaf=0 ops=1 mask=1
C16 tmpl=1 fan=256 leaf=1 ops=1 mask=6
C16 tmpl=1 fan=37|38|47..49|256 leaf=0..1 ops=0 q=1
C16 tmpl=1 fan=3..5 grow=5|17 leaf=0..2 ops=1
C16 tmpl=1 fan=12..13 grow=17 leaf=0..2 ops=1
C16 tmpl=1 fan=37..38 grow=49 leaf=0..2 ops=1
C16 tmpl=1 fan=2|3 leaf=1 ops=2
C16 tmpl=1 fan=4 leaf=0..1 ops=2 mask=3
C16G from=1 to=20 leaf=0..1 order=0..2 back=0..1
C16G from=36 to=52 leaf=0..1 order=2 back=0..1
C16G from=250 to=256 leaf=1 order=0..1 back=0..1 mask=3
C16 tmpl=1 plen=3|12 fan=1..6|12|13|16|17|38|48|49 leaf=0..1 ops=1
C16 tmpl=1 plen=3|12 fan=2|5|16|17|48|49 leaf=0..1 ops=0 q=1
C16 tmpl=1 sib=15|16|47|48 fan=1..6|16|17 leaf=0..1 ops=1
C16 tmpl=1 sib=15|16|47|48 fan=2|5|17 leaf=0..1 ops=0 q=1
`, thorough: `
C16 tmpl=1 fan=1..256 leaf=0..1 ops=1
C16 tmpl=1 fan=3|12|13|16 leaf=0..1 ops=2 rep=0
C16G from=1 to=256 leaf=0..1 order=0..2 back=0..1 mask=3
`},
	"C17": {quick: `
C17 tmpl=2 plen=8..14|22 shape=0..4 leaf=0..1 ops=1
C17 tmpl=2 plen=8..14|22 shape=0..4 leaf=0..1 ops=0 q=1 npos=1
C17 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1 q=1
C17 tmpl=2 plen=10..12 shape=0..4 leaf=0..1 ops=2
C11 tmpl=2 plen=10..13 shape=0..4 leaf=0..1 ops=1 when=0 npos=1
C17 tmpl=1 plen=9..12 fan=2|4|5|16|17|48|49 leaf=0..1 ops=1
C17 tmpl=1 plen=11|12 fan=4|5|16|17|48|49 leaf=0..1 ops=0 q=1
C17 tmpl=2 plen=254..258 shape=0..4 leaf=0..1 ops=1
C17 tmpl=2 plen=256|257 shape=0..4 leaf=0..1 ops=0 q=1
C17 tmpl=2 plen=65600 shape=2 leaf=1 ops=1
C17 tmpl=3 plen=12|24 shape=0..1 ops=1
C17 tmpl=3 plen=12|24 shape=0..1 ops=0 q=1
`, thorough: `
C17 tmpl=2 plen=9..14|22|25 shape=0..4 leaf=0..1 ops=2 npos=1
C17 tmpl=2 plen=9..14|22 shape=0..4 leaf=0..1 ops=1 q=1 npos=1
C17 tmpl=2 plen=11 shape=1..2 leaf=1 ops=3
C12 tmpl=2 plen=10..13 shape=0..4 leaf=0..1 ops=1 how=0 npos=1
`},
	"C18": {quick: `
C18 tmpl=0 seed=1..4 len=2 mid=0..4
C18 tmpl=0 pre=2 len=1 mid=0..4
C18 tmpl=0 pre=1 len=2 mid=0..4
C18 tmpl=1 fan=2..5 leaf=0..1 mid=0..4
C18 tmpl=1 fan=16|17|48|49 leaf=1 mid=0..1 qfix=1
C18 tmpl=1 fan=16|17|48|49|256 leaf=0..1 mid=2..4 qfix=1
C18 tmpl=2 plen=11..12 shape=0..4 leaf=1 mid=0..4
C18 tmpl=1 plen=3|12 fan=4|16|48 leaf=1 mid=1|2|3 qfix=1
C18 tmpl=3 plen=6 mid=0..4
`, thorough: `
C18 tmpl=0 pre=2 len=2 mid=0..4
C18 tmpl=0 seed=1..4 len=2 ops=2 mid=0..1 steps=5
C18 tmpl=1 fan=3|4|16|17|48|49|255|256 leaf=0..1 mid=0..1 qfix=1 steps=6
C18 tmpl=2 plen=9..13 shape=0..4 leaf=0..1 mid=0..4
`},
	"C19": {quick: `
C19 tmpl=0 ops=3 len=2 via=0
C19 tmpl=0 ops=2 len=3
C19 tmpl=0 ops=2 len=2 seed=1..4 via=0..1
C19 tmpl=1 fan=1..6|12|13|16|17 leaf=0..2 ops=1
C19 tmpl=1 fan=37|38|48|49 leaf=0..1 ops=0 sib=0..1
C19 tmpl=1 fan=48 leaf=1 ops=1 mask=1
C19 tmpl=1 fan=49 leaf=1 ops=1 mask=2
C19 tmpl=1 fan=4 grow=5|17 leaf=0..1 ops=1
C19 tmpl=1 fan=13 grow=17 leaf=0..1 ops=1
C19 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 ops=1
C19 tmpl=1 plen=3|12 fan=2|4|5|16 leaf=0..1 ops=1
C19 tmpl=1 plen=3|12 fan=17|48|49 leaf=0..1 ops=0
C19 tmpl=3 plen=2|6|12 shape=0..1 ops=1
C19 tmpl=1 fan=255|256 leaf=0..1 ops=0
C19 tmpl=1 fan=38|47|48|49 leaf=0..1 ops=1
C19 tmpl=2 plen=10..12 shape=0..4 leaf=0..1 ops=2
`, thorough: `
C19 tmpl=0 ops=3 len=3
C19 tmpl=0 ops=3 len=2 seed=1..4
C19 tmpl=2 plen=9|13|24 shape=0..4 leaf=0..1 ops=2
`},
	"C20": {quick: `
C20 type=0..7 ops=2 len=2 via=0..1
C20 type=0..7 ops=1 len=1 fan=3|4|16 via=0
C20 type=0|2|4 ops=1 len=1 fan=13|48|49 via=0..1
`, thorough: `
C20 type=0|2|4 ops=3 len=2 via=0..1
C20 type=0..7 ops=1 len=2 fan=3..5|16|17|37|48|49 via=0..1
`},
	"C21": {quick: `
C21 tmpl=0 seed=0..4 len=2 pre=1 ops=0
C21 tmpl=0 seed=0..4 len=1 pre=1 ops=1
C21 tmpl=0 seed=0..4 len=2 how=1
C21 tmpl=1 fan=2|4|5 leaf=0..1 pre=1 ops=0 rep=1
C21 tmpl=1 fan=12|16|17 leaf=1 pre=0 ops=0
C21 tmpl=1 plen=3|12 fan=4|5 leaf=1 pre=0 ops=0
C21 tmpl=1 fan=4|5 leaf=1 pre=0 ops=1 rep=1
C21 tmpl=1 fan=2|4|5 leaf=0..1 how=1 rep=1
C21 tmpl=2 plen=11|12 shape=0..4 leaf=1 pre=1 ops=0 rep=1
C21 tmpl=2 plen=11 shape=1..2 leaf=1 pre=0 ops=1 rep=1
C21 tmpl=2 plen=11|12 shape=0..4 leaf=1 how=1 rep=1
C21 tmpl=3 plen=2|6 pre=1 ops=0
C21 tmpl=3 plen=2|6 how=1
`, thorough: `
C21 tmpl=0 seed=0..4 len=2 pre=1 ops=1
C21 tmpl=0 seed=0..4 len=1 pre=1 ops=2
C21 tmpl=0 seed=0..4 len=1 how=1 ops=2
C21 tmpl=1 fan=12|13|16|17 leaf=1 pre=1 ops=0 rep=1
C21 tmpl=1 fan=38|48|49 leaf=1 pre=0 ops=0
C21 tmpl=1 fan=12|13|16|17 leaf=1 how=1 rep=1
C21 tmpl=2 plen=9..12 shape=0..4 leaf=0..1 pre=1 ops=0
`},
}
