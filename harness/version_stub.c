/* the generated version code is not part of any property */
char const *Version = "verif";
void print_version(const char *c) { (void)c; }
