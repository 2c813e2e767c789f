/* the character classes for switch statements */
#include "vp.h"
#include "strswitch.h"
#define IN(NAME, CLASS) static int NAME(unsigned char c) { switch(c) { case CLASS: return 1; default: return 0; } }
IN(uc, STRSWITCH_LETTERS_UC) IN(lc, STRSWITCH_LETTERS_LC) IN(let, STRSWITCH_LETTERS) IN(num, STRSWITCH_NUMBERS) IN(alnum, STRSWITCH_ALPHA) IN(na, STRSWITCH_NON_ALPHA) IN(pr, STRSWITCH_PRINTABLE) IN(cpr, STRSWITCH_C_PRINTABLE) IN(shpr, STRSWITCH_SH_PRINTABLE) IN(mo, STRSWITCH_MATH_OPS)
void harness(void) {
	unsigned char c = vp_u8(); int u = c >= 'A' && c <= 'Z', l = c >= 'a' && c <= 'z', d = c >= '0' && c <= '9';
	CHECK(uc(c) == u, "upper case letters"); CHECK(lc(c) == l, "lower case letters"); CHECK(let(c) == (u | l), "letters"); CHECK(num(c) == d, "digits"); CHECK(alnum(c) == (u | l | d), "letters and digits");
	CHECK(!mo(c) || na(c), "operators are not letters or digits"); CHECK(!(na(c) && alnum(c)), "the other characters are not letters or digits"); CHECK(pr(c) == (alnum(c) | na(c)), "printable characters are one or the other");
	if(pr(c)) CHECK(c >= 32 && c < 127, "printable characters only");
	if(cpr(c)) CHECK(pr(c) && c != '"' && c != '\\' && c != '\'' && c != '?', "nothing that needs an escape in a C string");
	if(shpr(c)) CHECK(pr(c) && c != '"' && c != '\\' && c != '\'' && c != '$' && c != '`', "nothing that is special in a quoted shell string");
	CHECK(mo(c) == (c == '*' || c == '/' || c == '+' || c == '-' || c == '%' || c == '='), "exactly the operators");
	if(c == ' ' || c == '@' || c == ',' || c == ';' || c == '.' || c == ':' || c == '_' || c == '!' || c == '&' || c == '(' || c == ')' || c == '[' || c == ']' || c == '{' || c == '}' || c == '<' || c == '>' || c == '#' || c == '~' || mo(c)) CHECK(cpr(c) && shpr(c), "ordinary characters need no escape"); if(c == '$') CHECK(cpr(c), "nor does a dollar sign in C"); if(c == '?' || c == '"' || c == '\'' || c == '\\') CHECK(pr(c) && na(c), "special ones are printable");
	if(alnum(c) || c == ' ' || c == '_' || c == '.' || c == '/') CHECK(cpr(c) && shpr(c), "ordinary characters need no escape");
	vp_obs(pr(c)); vp_done();
}
