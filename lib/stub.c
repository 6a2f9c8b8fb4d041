/* Recording stand-in for the tools the apertium script calls.  Copies its input
   to its output with a mark naming the tool and its arguments in front of every
   end of line, every null and the end of the input. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char mark[65536];
static void add(const char *s) { strncat(mark, s, sizeof mark - strlen(mark) - 1); }
static void slurp(const char *f) {
  FILE *g = fopen(f, "rb"); int c; char b[2] = {0, 0};
  if (!g) { add("?"); return; }
  while ((c = getc(g)) != EOF) { b[0] = c; add(b); }
  fclose(g);
}
int main(int argc, char **argv) {
  const char *name = strrchr(argv[0], '/'), *log = getenv("STUB_LOG"), *tmp = getenv("TMPDIR");
  name = name ? name + 1 : argv[0];
  if (!tmp) tmp = "/tmp";
  if (log) { FILE *l = fopen(log, "ab"); if (l) { fprintf(l, "%s\n", name); fclose(l); } }
  int in_file = 0, n = argc;
  FILE *in = stdin;
  add("{"); add(name);
  if (!strcmp(name, "lt-tmxcomp")) {
    if (argc != 4 || strstr(argv[2], "bad")) return 1;
    FILE *o = fopen(argv[3], "wb");
    if (!o) return 1;
    fprintf(o, "TM(%s,%s)", argv[1], argv[2]);
    fclose(o);
    return 0;
  }
  if (!strncmp(name, "apertium-des", 12) || !strcmp(name, "tf-extract") || !strcmp(name, "apertium-prelatex")) {
    if (argc > 1 && argv[argc - 1][0] != '-') {
      in = fopen(argv[argc - 1], "rb");
      if (!in) { fprintf(stderr, "%s: no file %s\n", name, argv[argc - 1]); return 1; }
      in_file = 1;
    }
  }
  for (int i = 1; i < n; i++) {
    add("|");
    if (!strcmp(name, "lt-tmxproc") && i == n - 1) slurp(argv[i]);
    else if (in_file && i == n - 1 && !strncmp(argv[i], tmp, strlen(tmp)) && strstr(argv[i], "/apertium.")) add("TMP");
    else add(argv[i]);
  }
  add("}");
  if (!strcmp(name, "apertium-adapt-docx")) {
    char *line = 0; size_t cap = 0; ssize_t k;
    while ((k = getline(&line, &cap, stdin)) > 0) {
      if (line[k - 1] == '\n') line[k - 1] = 0;
      printf("<file name=\"%s\"/> ", line);
      FILE *g = fopen(line, "rb"); int c;
      if (g) { while ((c = getc(g)) != EOF) putchar(c == '\n' ? ' ' : c); fclose(g); }
      printf("%s\n", mark);
    }
    return 0;
  }
  int c, last = -1;
  while ((c = getc(in)) != EOF) {
    if (c == '\n' || c == 0) fputs(mark, stdout);
    putchar(c);
    last = c;
  }
  if (last != '\n' && last != 0) fputs(mark, stdout);
  return ferror(stdin) ? 1 : 0;
}
