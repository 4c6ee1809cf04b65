package main

// Tables of composed characters, made from the Unicode normalization data
// (NFC of the letter followed by the combining mark), independent of the code
// under test.

// accentTable holds the combinations that must render.
var accentTable = map[string]rune{
	"`a":  0x00e0,
	"`e":  0x00e8,
	"`i":  0x00ec,
	"`o":  0x00f2,
	"`u":  0x00f9,
	"`A":  0x00c0,
	"`E":  0x00c8,
	"`I":  0x00cc,
	"`O":  0x00d2,
	"`U":  0x00d9,
	"'a":  0x00e1,
	"'e":  0x00e9,
	"'i":  0x00ed,
	"'o":  0x00f3,
	"'u":  0x00fa,
	"'y":  0x00fd,
	"'A":  0x00c1,
	"'E":  0x00c9,
	"'I":  0x00cd,
	"'O":  0x00d3,
	"'U":  0x00da,
	"'Y":  0x00dd,
	"^a":  0x00e2,
	"^e":  0x00ea,
	"^i":  0x00ee,
	"^o":  0x00f4,
	"^u":  0x00fb,
	"^A":  0x00c2,
	"^E":  0x00ca,
	"^I":  0x00ce,
	"^O":  0x00d4,
	"^U":  0x00db,
	"\"a": 0x00e4,
	"\"e": 0x00eb,
	"\"i": 0x00ef,
	"\"o": 0x00f6,
	"\"u": 0x00fc,
	"\"A": 0x00c4,
	"\"E": 0x00cb,
	"\"I": 0x00cf,
	"\"O": 0x00d6,
	"\"U": 0x00dc,
	"~a":  0x00e3,
	"~n":  0x00f1,
	"~o":  0x00f5,
	"~A":  0x00c3,
	"~N":  0x00d1,
	"~O":  0x00d5,
	"cc":  0x00e7,
	"cC":  0x00c7,
	".c":  0x010b,
	".e":  0x0117,
	".g":  0x0121,
	".i":  0x0069,
	".z":  0x017c,
	".C":  0x010a,
	".E":  0x0116,
	".G":  0x0120,
	".I":  0x0130,
	".Z":  0x017b,
}

// composedTable holds every combination that has a composed character.
var composedTable = map[string]rune{
	"'a":  0x00e1,
	"'c":  0x0107,
	"'e":  0x00e9,
	"'g":  0x01f5,
	"'i":  0x00ed,
	"'k":  0x1e31,
	"'l":  0x013a,
	"'m":  0x1e3f,
	"'n":  0x0144,
	"'o":  0x00f3,
	"'p":  0x1e55,
	"'r":  0x0155,
	"'s":  0x015b,
	"'u":  0x00fa,
	"'w":  0x1e83,
	"'y":  0x00fd,
	"'z":  0x017a,
	"'A":  0x00c1,
	"'C":  0x0106,
	"'E":  0x00c9,
	"'G":  0x01f4,
	"'I":  0x00cd,
	"'K":  0x1e30,
	"'L":  0x0139,
	"'M":  0x1e3e,
	"'N":  0x0143,
	"'O":  0x00d3,
	"'P":  0x1e54,
	"'R":  0x0154,
	"'S":  0x015a,
	"'U":  0x00da,
	"'W":  0x1e82,
	"'Y":  0x00dd,
	"'Z":  0x0179,
	"cc":  0x00e7,
	"cd":  0x1e11,
	"ce":  0x0229,
	"cg":  0x0123,
	"ch":  0x1e29,
	"ck":  0x0137,
	"cl":  0x013c,
	"cn":  0x0146,
	"cr":  0x0157,
	"cs":  0x015f,
	"ct":  0x0163,
	"cC":  0x00c7,
	"cD":  0x1e10,
	"cE":  0x0228,
	"cG":  0x0122,
	"cH":  0x1e28,
	"cK":  0x0136,
	"cL":  0x013b,
	"cN":  0x0145,
	"cR":  0x0156,
	"cS":  0x015e,
	"cT":  0x0162,
	"^a":  0x00e2,
	"^c":  0x0109,
	"^e":  0x00ea,
	"^g":  0x011d,
	"^h":  0x0125,
	"^i":  0x00ee,
	"^j":  0x0135,
	"^o":  0x00f4,
	"^s":  0x015d,
	"^u":  0x00fb,
	"^w":  0x0175,
	"^y":  0x0177,
	"^z":  0x1e91,
	"^A":  0x00c2,
	"^C":  0x0108,
	"^E":  0x00ca,
	"^G":  0x011c,
	"^H":  0x0124,
	"^I":  0x00ce,
	"^J":  0x0134,
	"^O":  0x00d4,
	"^S":  0x015c,
	"^U":  0x00db,
	"^W":  0x0174,
	"^Y":  0x0176,
	"^Z":  0x1e90,
	".a":  0x0227,
	".b":  0x1e03,
	".c":  0x010b,
	".d":  0x1e0b,
	".e":  0x0117,
	".f":  0x1e1f,
	".g":  0x0121,
	".h":  0x1e23,
	".i":  0x0069,
	".m":  0x1e41,
	".n":  0x1e45,
	".o":  0x022f,
	".p":  0x1e57,
	".r":  0x1e59,
	".s":  0x1e61,
	".t":  0x1e6b,
	".w":  0x1e87,
	".x":  0x1e8b,
	".y":  0x1e8f,
	".z":  0x017c,
	".A":  0x0226,
	".B":  0x1e02,
	".C":  0x010a,
	".D":  0x1e0a,
	".E":  0x0116,
	".F":  0x1e1e,
	".G":  0x0120,
	".H":  0x1e22,
	".I":  0x0130,
	".M":  0x1e40,
	".N":  0x1e44,
	".O":  0x022e,
	".P":  0x1e56,
	".R":  0x1e58,
	".S":  0x1e60,
	".T":  0x1e6a,
	".W":  0x1e86,
	".X":  0x1e8a,
	".Y":  0x1e8e,
	".Z":  0x017b,
	"`a":  0x00e0,
	"`e":  0x00e8,
	"`i":  0x00ec,
	"`n":  0x01f9,
	"`o":  0x00f2,
	"`u":  0x00f9,
	"`w":  0x1e81,
	"`y":  0x1ef3,
	"`A":  0x00c0,
	"`E":  0x00c8,
	"`I":  0x00cc,
	"`N":  0x01f8,
	"`O":  0x00d2,
	"`U":  0x00d9,
	"`W":  0x1e80,
	"`Y":  0x1ef2,
	"~a":  0x00e3,
	"~e":  0x1ebd,
	"~i":  0x0129,
	"~n":  0x00f1,
	"~o":  0x00f5,
	"~u":  0x0169,
	"~v":  0x1e7d,
	"~y":  0x1ef9,
	"~A":  0x00c3,
	"~E":  0x1ebc,
	"~I":  0x0128,
	"~N":  0x00d1,
	"~O":  0x00d5,
	"~U":  0x0168,
	"~V":  0x1e7c,
	"~Y":  0x1ef8,
	"\"a": 0x00e4,
	"\"e": 0x00eb,
	"\"h": 0x1e27,
	"\"i": 0x00ef,
	"\"o": 0x00f6,
	"\"t": 0x1e97,
	"\"u": 0x00fc,
	"\"w": 0x1e85,
	"\"x": 0x1e8d,
	"\"y": 0x00ff,
	"\"A": 0x00c4,
	"\"E": 0x00cb,
	"\"H": 0x1e26,
	"\"I": 0x00cf,
	"\"O": 0x00d6,
	"\"U": 0x00dc,
	"\"W": 0x1e84,
	"\"X": 0x1e8c,
	"\"Y": 0x0178,
}
