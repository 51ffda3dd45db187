/* Sums for the judges that Python is too slow for, a line each in decimal:
 *   f N                  the prime divisors of N
 *   c p a b              the order of y^2 = x^3 + a x + b over the prime field
 *   b m e1 e2 e3 a b     the order of y^2 + x y = x^3 + a x^2 + b over the binary field
 * What it says is only a hint: whoever asks verifies it. */
#include <pari/pari.h>
#include <string.h>
static GEN poly2(GEN bits) {
	GEN r = pol_0(0);
	setvarn(r, 0);
	for (long i = 0; i < expi(bits) + 1 && signe(bits); i++)
		if (bittest(bits, i)) r = gadd(r, pol_xn(i, 0));
	return gmul(r, gmodulss(1, 2));
}
int main(void) {
	static char l[4096];
	pari_init((size_t)512 << 20, 1 << 16);
	while (fgets(l, sizeof l, stdin)) {
		pari_sp av = avma;
		GEN v[8] = {0};
		int n = 0;
		for (char *t = strtok(l + 1, " \n"); t && n < 8; t = strtok(NULL, " \n")) v[n++] = strtoi(t);
		if (l[0] == 'f' && n == 1) {
			GEN f = gel(Z_factor(v[0]), 1);
			for (long i = 1; i < lg(f); i++) printf("%s ", GENtostr(gel(f, i)));
		} else if (l[0] == 'c' && n == 3) {
			GEN E = ellinit(mkvec2(v[1], v[2]), v[0], 38);
			printf("%s", GENtostr(ellcard(E, NULL)));
		} else if (l[0] == 'b' && n == 6) {
			long m = itos(v[0]);
			GEN T = gadd(pol_xn(m, 0), pol_1(0));
			for (int i = 1; i <= 3; i++) if (signe(v[i])) T = gadd(T, pol_xn(itos(v[i]), 0));
			GEN g = ffgen(gmul(T, gmodulss(1, 2)), 0);
			GEN a = gsubst(poly2(v[4]), 0, g), b = gsubst(poly2(v[5]), 0, g);
			GEN one = gpowgs(g, 0), zero = gsub(one, one);
			if (typ(a) != t_FFELT) a = gmul(a, one);
			if (typ(b) != t_FFELT) b = gmul(b, one);
			GEN E = ellinit(mkvec5(one, a, zero, zero, b), NULL, 38);
			printf("%s", GENtostr(ellcard(E, NULL)));
		}
		printf("\n");
		fflush(stdout);
		avma = av;
	}
	return 0;
}
