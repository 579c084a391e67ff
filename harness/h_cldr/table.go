package h_cldr

// The plural rules of the languages after the Unicode CLDR.
var table = []struct{ langs, rules string }{
	{"bm bo dz hnj id ig ii ja jbo jv jw kde kea km ko lkt lo ms my nqo osa sah ses sg su th to tpi und vi wo yo yue zh", ""},
	{"af an asa az bal bem bez bg brx ce cgg chr ckb dv ee el eo eu fo fur gsw ha haw hu jgo jmc ka kaj kcg kk kkj kl ks ksb ku ky lb lg mas mgo ml mn mr nah nb nd ne nn nnh no nr ny nyn om or os pap ps rm rof rwk saq sd sdh seh sn so sq ss ssy st syr ta te teo tig tk tn tr ts ug uz ve vo vun wae xh xog", "one: n = 1"},
	{"ak bho csw guw ln mg nso pa ti wa", "one: n = 0..1"},
	{"am as bn doi fa gu hi kn pcm zu", "one: i = 0 or n = 1"},
	{"ast de en et fi fy gl ia io lij nl sc sv sw ur yi", "one: i = 1 and v = 0"},
	{"ceb fil tl", "one: v = 0 and i = 1,2,3 or v = 0 and i % 10 != 4,6,9 or v != 0 and f % 10 != 4,6,9"},
	{"da", "one: n = 1 or t != 0 and i = 0,1"},
	{"ff hy kab", "one: i = 0,1"},
	{"is", "one: t = 0 and i % 10 = 1 and i % 100 != 11 or t % 10 = 1 and t % 100 != 11"},
	{"mk", "one: v = 0 and i % 10 = 1 and i % 100 != 11 or f % 10 = 1 and f % 100 != 11"},
	{"si", "one: n = 0,1 or i = 0 and f = 1"},
	{"tzm", "one: n = 0..1 or n = 11..99"},
	{"blo ksh", "zero: n = 0; one: n = 1"},
	{"bs hr sh sr sr-Latn", "one: v = 0 and i % 10 = 1 and i % 100 != 11 or f % 10 = 1 and f % 100 != 11; few: v = 0 and i % 10 = 2..4 and i % 100 != 12..14 or f % 10 = 2..4 and f % 100 != 12..14"},
	{"ca it lld pt-PT scn vec", "one: i = 1 and v = 0; many: e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5"},
	{"es", "one: n = 1; many: e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5"},
	{"fr", "one: i = 0,1; many: e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5"},
	{"he", "one: i = 1 and v = 0 or i = 0 and v != 0; two: i = 2 and v = 0"},
	{"iu naq sat se sma smi smj smn sms", "one: n = 1; two: n = 2"},
	{"lag", "zero: n = 0; one: i = 0,1 and n != 0"},
	{"lv prg", "zero: n % 10 = 0 or n % 100 = 11..19 or v = 2 and f % 100 = 11..19; one: n % 10 = 1 and n % 100 != 11 or v = 2 and f % 10 = 1 and f % 100 != 11 or v != 2 and f % 10 = 1"},
	{"mo ro ro-MD", "one: i = 1 and v = 0; few: v != 0 or n = 0 or n != 1 and n % 100 = 1..19"},
	{"pt", "one: i = 0..1; many: e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5"},
	{"shi", "one: i = 0 or n = 1; few: n = 2..10"},
	{"be", "one: n % 10 = 1 and n % 100 != 11; few: n % 10 = 2..4 and n % 100 != 12..14; many: n % 10 = 0 or n % 10 = 5..9 or n % 100 = 11..14"},
	{"cs sk", "one: i = 1 and v = 0; few: i = 2..4 and v = 0; many: v != 0"},
	{"dsb hsb", "one: v = 0 and i % 100 = 1 or f % 100 = 1; two: v = 0 and i % 100 = 2 or f % 100 = 2; few: v = 0 and i % 100 = 3..4 or f % 100 = 3..4"},
	{"gd", "one: n = 1,11; two: n = 2,12; few: n = 3..10,13..19"},
	{"lt", "one: n % 10 = 1 and n % 100 != 11..19; few: n % 10 = 2..9 and n % 100 != 11..19; many: f != 0"},
	{"pl", "one: i = 1 and v = 0; few: v = 0 and i % 10 = 2..4 and i % 100 != 12..14; many: v = 0 and i != 1 and i % 10 = 0..1 or v = 0 and i % 10 = 5..9 or v = 0 and i % 100 = 12..14"},
	{"ru uk", "one: v = 0 and i % 10 = 1 and i % 100 != 11; few: v = 0 and i % 10 = 2..4 and i % 100 != 12..14; many: v = 0 and i % 10 = 0 or v = 0 and i % 10 = 5..9 or v = 0 and i % 100 = 11..14"},
	{"sl", "one: v = 0 and i % 100 = 1; two: v = 0 and i % 100 = 2; few: v = 0 and i % 100 = 3..4 or v != 0"},
	{"br", "one: n % 10 = 1 and n % 100 != 11,71,91; two: n % 10 = 2 and n % 100 != 12,72,92; few: n % 10 = 3..4,9 and n % 100 != 10..19,70..79,90..99; many: n != 0 and n % 1000000 = 0"},
	{"ga", "one: n = 1; two: n = 2; few: n = 3..6; many: n = 7..10"},
	{"gv", "one: v = 0 and i % 10 = 1; two: v = 0 and i % 10 = 2; few: v = 0 and i % 100 = 0,20,40,60,80; many: v != 0"},
	{"mt", "one: n = 1; two: n = 2; few: n = 0 or n % 100 = 3..10; many: n % 100 = 11..19"},
	{"ar ars", "zero: n = 0; one: n = 1; two: n = 2; few: n % 100 = 3..10; many: n % 100 = 11..99"},
	{"cy", "zero: n = 0; one: n = 1; two: n = 2; few: n = 3; many: n = 6"},
	{"kw", "zero: n = 0; one: n = 1; two: n % 100 = 2,22,42,62,82 or n % 1000 = 0 and n % 100000 = 1000..20000,40000,60000,80000 or n != 0 and n % 1000000 = 100000; few: n % 100 = 3,23,43,63,83; many: n != 1 and n % 100 = 1,21,41,61,81"},
}
