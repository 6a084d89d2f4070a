// Operations of the public API that simulated callers can perform.
// sig: k variant (0..nvar-1), C colour, D definition, W white point, G gamma curve, P gamma part, M matrix,
//      T colour type, f float (8 hex digits), i integer, b bool, s string (hex encoded), * rest of the line
#pragma once
struct OpDef { const char* name; const char* sig; int nvar; int flags; };
enum { F_MUT = 1, F_LIFE = 2 };
static const OpDef OPDEFS[] = {
	{"conv", "CT", 1, 0}, {"to", "TC", 1, 0}, {"adapt", "kCWfff", 11, 0}, {"adlum", "ff", 1, 0}, {"adj", "kCf", 4, 0},
	{"comb", "kCfii", 8, 0}, {"calc", "kCCffb", 3, 0}, {"calct", "kTCCffb", 3, 0}, {"avg", "Tb*", 1, 0},
	{"dist", "kCCfffffT", 7, 0}, {"blend", "kCCbb", 28, 0}, {"pd", "kCC", 12, 0}, {"hexs", "sD", 1, 0}, {"hexi", "iD", 1, 0},
	{"predef", "kiD", 10, 0}, {"defpre", "kb", 20, 0}, {"gampre", "kb", 8, 0}, {"wppre", "kb", 40, 0}, {"gcorr", "kGf", 2, 0},
	{"cpC", "C", 1, 0}, {"cpD", "D", 1, 0}, {"cpG", "G", 1, 0}, {"cpM", "M", 1, 0}, {"cpW", "W", 1, 0}, {"cpP", "P", 1, 0},
	{"ctorC", "TfffffD", 1, 0}, {"ctorB", "TC", 1, 0}, {"ctorD", "ffffffWG", 1, 0}, {"ctorW", "kfffff", 3, 0},
	{"eqC", "CC", 1, 0}, {"plusC", "CC", 1, 0}, {"eqM", "MM", 1, 0}, {"eqW", "WW", 1, 0}, {"eqG", "GG", 1, 0}, {"getC", "Ci", 1, 0},
	{"mat2", "kMM", 3, 0}, {"mats", "kMf", 4, 0}, {"matu", "kM", 4, 0}, {"matv", "M*", 1, 0}, {"matat", "Mii", 1, 0}, {"matq", "kMii", 4, 0}, {"matid", "i", 1, 0},
	{"matctor", "kiif", 4, 0}, {"wpst", "kfff", 2, 0}, {"getD", "kD", 5, 0}, {"getG", "kG", 2, 0}, {"getM", "M", 1, 0}, {"getCv", "C", 1, 0},
	{"setc", "Cif", 1, F_MUT}, {"setcr", "Cifff", 1, F_MUT}, {"seta", "Cf", 1, F_MUT}, {"setdef", "CD", 1, F_MUT}, {"asgC", "CC", 1, F_MUT},
	{"gcC", "kC", 2, F_MUT}, {"amul", "kC", 2, F_MUT}, {"adjip", "kCf", 4, F_MUT}, {"setch", "Cif", 1, F_MUT},
	{"setwp", "DW", 1, F_MUT}, {"setgam", "DG", 1, F_MUT}, {"asgD", "DD", 1, F_MUT}, {"asgW", "WW", 1, F_MUT}, {"asgG", "GG", 1, F_MUT},
	{"addG", "kGP", 2, F_MUT}, {"setG", "kGG", 2, F_MUT}, {"asgP", "PP", 1, F_MUT}, {"setPf", "Pif", 1, F_MUT},
	{"asgM", "MM", 1, F_MUT}, {"mac", "kMM", 3, F_MUT}, {"resz", "Miif", 1, F_MUT}, {"fillM", "Mf", 1, F_MUT}, {"insM", "M*", 1, F_MUT}, {"setM", "Miif", 1, F_MUT}, {"refM", "kMiif", 3, F_MUT},
	{"mk", "*", 1, F_LIFE}, {"del", "*", 1, F_LIFE},
};
static const int NOPDEFS = sizeof OPDEFS / sizeof OPDEFS[0];
// argument index of the colour/definition/... that a F_MUT operation changes (position in sig)
