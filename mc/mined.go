package main

// Code generated by miner; DO NOT EDIT.

var minedScalars = []struct {
	class string
	k     int64
}{
	{"addrlen-00-false-32", 6893403},
	{"addrlen-00-false-32", 6987233},
	{"addrlen-00-false-33", 411},
	{"addrlen-00-false-33", 3529},
	{"addrlen-00-false-34", 248470},
	{"addrlen-00-false-34", 249857},
	{"addrlen-00-true-32", 4908007},
	{"addrlen-00-true-32", 7390378},
	{"addrlen-00-true-33", 965},
	{"addrlen-00-true-33", 2035},
	{"addrlen-00-true-34", 591653},
	{"addrlen-00-true-34", 2103698},
	{"addrsum-00-false-lead0-nibbles-2", 1},
	{"addrsum-00-false-lead0-nibbles-2", 77},
	{"addrsum-00-false-lead0-nibbles-3", 10537},
	{"addrsum-00-false-lead0-nibbles-3", 11194},
	{"addrsum-00-false-lead0-nibbles-4", 13458},
	{"addrsum-00-false-lead0-nibbles-4", 114155},
	{"addrsum-00-false-lead0-nibbles-5", 718400},
	{"addrsum-00-false-lead0-nibbles-5", 2000345},
	{"addrsum-00-false-lead0-nibbles-6", 49591128},
	{"addrsum-00-false-lead0-nibbles-6", 69414912},
	{"addrsum-00-false-lead0-nibbles-7", 159284157},
	{"addrsum-00-false-trail0-bytes-2", 82662},
	{"addrsum-00-false-trail0-bytes-2", 230166},
	{"addrsum-00-false-trail0-bytes-3", 63241377},
	{"addrsum-00-false-trail0-bytes-3", 64157770},
	{"addrsum-00-true-lead0-nibbles-2", 321},
	{"addrsum-00-true-lead0-nibbles-2", 615},
	{"addrsum-00-true-lead0-nibbles-3", 2126},
	{"addrsum-00-true-lead0-nibbles-3", 4994},
	{"addrsum-00-true-lead0-nibbles-4", 85572},
	{"addrsum-00-true-lead0-nibbles-4", 120454},
	{"addrsum-00-true-lead0-nibbles-5", 2792255},
	{"addrsum-00-true-lead0-nibbles-5", 3148765},
	{"addrsum-00-true-lead0-nibbles-6", 69584047},
	{"addrsum-00-true-lead0-nibbles-6", 82755288},
	{"addrsum-00-true-trail0-bytes-2", 105508},
	{"addrsum-00-true-trail0-bytes-2", 155393},
	{"addrsum-00-true-trail0-bytes-3", 5862703},
	{"addrsum-00-true-trail0-bytes-3", 15017741},
	{"addrsum-6f-false-lead0-nibbles-2", 937},
	{"addrsum-6f-false-lead0-nibbles-2", 943},
	{"addrsum-6f-false-lead0-nibbles-3", 12583},
	{"addrsum-6f-false-lead0-nibbles-3", 15644},
	{"addrsum-6f-false-lead0-nibbles-4", 90880},
	{"addrsum-6f-false-lead0-nibbles-4", 339391},
	{"addrsum-6f-false-lead0-nibbles-5", 537506},
	{"addrsum-6f-false-lead0-nibbles-5", 1474084},
	{"addrsum-6f-false-lead0-nibbles-6", 997134},
	{"addrsum-6f-false-lead0-nibbles-6", 5490965},
	{"addrsum-6f-false-lead0-nibbles-7", 246598705},
	{"addrsum-6f-false-trail0-bytes-2", 174129},
	{"addrsum-6f-false-trail0-bytes-2", 366853},
	{"addrsum-6f-false-trail0-bytes-3", 26662215},
	{"addrsum-6f-false-trail0-bytes-3", 30380634},
	{"addrsum-6f-true-lead0-nibbles-2", 157},
	{"addrsum-6f-true-lead0-nibbles-2", 644},
	{"addrsum-6f-true-lead0-nibbles-3", 2645},
	{"addrsum-6f-true-lead0-nibbles-3", 11962},
	{"addrsum-6f-true-lead0-nibbles-4", 5386},
	{"addrsum-6f-true-lead0-nibbles-4", 39821},
	{"addrsum-6f-true-lead0-nibbles-5", 1642196},
	{"addrsum-6f-true-lead0-nibbles-5", 2790511},
	{"addrsum-6f-true-lead0-nibbles-6", 15687571},
	{"addrsum-6f-true-lead0-nibbles-6", 64122768},
	{"addrsum-6f-true-trail0-bytes-2", 133422},
	{"addrsum-6f-true-trail0-bytes-2", 135988},
	{"addrsum-6f-true-trail0-bytes-3", 14417455},
	{"addrsum-6f-true-trail0-bytes-3", 35400275},
	{"h160-false-lead0-nibbles-1", 4},
	{"h160-false-lead0-nibbles-1", 6},
	{"h160-false-lead0-nibbles-2", 511},
	{"h160-false-lead0-nibbles-2", 693},
	{"h160-false-lead0-nibbles-3", 411},
	{"h160-false-lead0-nibbles-3", 3529},
	{"h160-false-lead0-nibbles-4", 107023},
	{"h160-false-lead0-nibbles-4", 248470},
	{"h160-false-lead0-nibbles-5", 370185},
	{"h160-false-lead0-nibbles-5", 2824933},
	{"h160-false-lead0-nibbles-6", 12002259},
	{"h160-false-lead0-nibbles-6", 13493502},
	{"h160-false-trail0-bytes-2", 53689},
	{"h160-false-trail0-bytes-2", 122839},
	{"h160-false-trail0-bytes-3", 4045998},
	{"h160-false-trail0-bytes-3", 12403740},
	{"h160-true-lead0-nibbles-1", 2},
	{"h160-true-lead0-nibbles-1", 62},
	{"h160-true-lead0-nibbles-2", 182},
	{"h160-true-lead0-nibbles-2", 199},
	{"h160-true-lead0-nibbles-3", 965},
	{"h160-true-lead0-nibbles-3", 2035},
	{"h160-true-lead0-nibbles-4", 202760},
	{"h160-true-lead0-nibbles-4", 303988},
	{"h160-true-lead0-nibbles-5", 1462755},
	{"h160-true-lead0-nibbles-5", 4327086},
	{"h160-true-lead0-nibbles-6", 10532067},
	{"h160-true-lead0-nibbles-6", 21601020},
	{"h160-true-lead0-nibbles-7", 125776022},
	{"h160-true-trail0-bytes-2", 42104},
	{"h160-true-trail0-bytes-2", 97735},
	{"h160-true-trail0-bytes-3", 20734873},
	{"h160-true-trail0-bytes-3", 43732910},
	{"wifsum-80-lead0-nibbles-1", 4},
	{"wifsum-80-lead0-nibbles-1", 11},
	{"wifsum-80-lead0-nibbles-2", 591},
	{"wifsum-80-lead0-nibbles-2", 630},
	{"wifsum-80-lead0-nibbles-3", 280},
	{"wifsum-80-lead0-nibbles-3", 882},
	{"wifsum-80-lead0-nibbles-4", 203428},
	{"wifsum-80-lead0-nibbles-4", 355592},
	{"wifsum-80-lead0-nibbles-5", 1377189},
	{"wifsum-80-lead0-nibbles-5", 5184230},
	{"wifsum-80-lead0-nibbles-6", 1225443},
	{"wifsum-80-lead0-nibbles-6", 12722723},
	{"wifsum-80-trail0-bytes-1", 336},
	{"wifsum-80-trail0-bytes-1", 1722},
	{"wifsum-80-trail0-bytes-2", 278950},
	{"wifsum-80-trail0-bytes-2", 288673},
	{"wifsum-80-trail0-bytes-3", 2993525},
	{"wifsum-80-trail0-bytes-3", 3975702},
	{"wifsum-ef-lead0-nibbles-1", 15},
	{"wifsum-ef-lead0-nibbles-1", 20},
	{"wifsum-ef-lead0-nibbles-2", 31},
	{"wifsum-ef-lead0-nibbles-2", 426},
	{"wifsum-ef-lead0-nibbles-3", 105},
	{"wifsum-ef-lead0-nibbles-3", 1940},
	{"wifsum-ef-lead0-nibbles-4", 84558},
	{"wifsum-ef-lead0-nibbles-4", 117642},
	{"wifsum-ef-lead0-nibbles-5", 987941},
	{"wifsum-ef-lead0-nibbles-5", 1839986},
	{"wifsum-ef-lead0-nibbles-6", 905827},
	{"wifsum-ef-lead0-nibbles-6", 12268785},
	{"wifsum-ef-lead0-nibbles-7", 72888824},
	{"wifsum-ef-lead0-nibbles-7", 101217793},
	{"wifsum-ef-trail0-bytes-1", 4},
	{"wifsum-ef-trail0-bytes-1", 68},
	{"wifsum-ef-trail0-bytes-2", 265440},
	{"wifsum-ef-trail0-bytes-2", 481019},
	{"wifsum-ef-trail0-bytes-3", 3355810},
	{"wifsum-ef-trail0-bytes-3", 49386056},
	{"x-lead0-nibbles-1", 45},
	{"x-lead0-nibbles-1", 60},
	{"x-lead0-nibbles-2", 153},
	{"x-lead0-nibbles-2", 246},
	{"x-lead0-nibbles-3", 15680},
	{"x-lead0-nibbles-3", 18787},
	{"x-lead0-nibbles-4", 44629},
	{"x-lead0-nibbles-4", 58165},
	{"x-lead0-nibbles-5", 218177},
	{"x-lead0-nibbles-5", 512675},
	{"x-lead0-nibbles-6", 8673773},
	{"x-lead0-nibbles-6", 21753172},
	{"x-lead0-nibbles-8", 194577157},
	{"x-trail0-bytes-2", 10916},
	{"x-trail0-bytes-2", 114662},
	{"x-trail0-bytes-3", 1788644},
	{"x-trail0-bytes-3", 11234946},
	{"xy-lead0-byte", 55959},
	{"xy-lead0-byte", 62762},
	{"xy-lead0-nibble", 307},
	{"xy-lead0-nibble", 391},
	{"y-lead0-nibbles-1", 13},
	{"y-lead0-nibbles-1", 23},
	{"y-lead0-nibbles-2", 122},
	{"y-lead0-nibbles-2", 130},
	{"y-lead0-nibbles-3", 834},
	{"y-lead0-nibbles-3", 12563},
	{"y-lead0-nibbles-4", 41192},
	{"y-lead0-nibbles-4", 394851},
	{"y-lead0-nibbles-5", 4448081},
	{"y-lead0-nibbles-5", 5179511},
	{"y-lead0-nibbles-6", 8169169},
	{"y-lead0-nibbles-6", 50018549},
	{"y-trail0-bytes-2", 8480},
	{"y-trail0-bytes-2", 30787},
	{"y-trail0-bytes-3", 462811},
	{"y-trail0-bytes-3", 8728922},
	{"y-trail0-bytes-4", 122910127},
}
