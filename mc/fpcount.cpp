// number of distinct state fingerprints in a set of files
#include "core.h"
int main(int c, char **v) {
  mc::FpSet s; std::vector<mc::b64> b(1 << 16);
  for (int i = 1; i < c; i++) { FILE *f = fopen(v[i], "rb"); if (!f) return 3; size_t n; while ((n = fread(b.data(), 8, b.size(), f)) > 0) for (size_t k = 0; k < n; k++) s.insert(b[k]); fclose(f); }
  printf("%zu\n", s.cnt);
}
