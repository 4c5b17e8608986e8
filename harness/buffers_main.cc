// Replays a script of buffer operations:  new ID KIND A B C | op ID OP I X | free ID | all A B C | min X Y | max X Y
#include <cstdio>
#include <map>
#include <string>
#include <cstring>
struct H;
extern "C" { H *vp_new(int, int, int, int); double vp_op(H *, int, int, double); void vp_free(H *); double vp_stepall(H *, H *, H *); double vp_min(double, double); double vp_max(double, double); }
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r"); if (!f) return 91;
    char w[64]; std::map<int, H *> h; int id, k, a, b, c; double x, y;
    while (fscanf(f, "%63s", w) == 1) {
        std::string s = w;
        if (s == "new") { if (fscanf(f, "%d %d %d %d %d", &id, &k, &a, &b, &c) != 5) return 92; h[id] = vp_new(k, a, b, c); }
        else if (s == "op") { if (fscanf(f, "%d %d %d %lf", &id, &k, &a, &x) != 4) return 92; printf("v %.17g\n", vp_op(h.at(id), k, a, x)); }
        else if (s == "all") { if (fscanf(f, "%d %d %d", &a, &b, &c) != 3) return 92; vp_stepall(h.at(a), h.at(b), h.at(c)); printf("v 0\n"); }
        else if (s == "min" || s == "max") { if (fscanf(f, "%lf %lf", &x, &y) != 2) return 92; printf("v %.17g\n", s == "min" ? vp_min(x, y) : vp_max(x, y)); }
        else if (s == "free") { if (fscanf(f, "%d", &id) != 1) return 92; vp_free(h.at(id)); h.erase(id); }
        fflush(stdout);
    }
    fclose(f);
    return 0;
}
