#include <stdio.h>
struct P { int x; int y; }; int main(void) { struct P p = { .y = 2, .x = 1 }; printf("%d %d\n", p.x, p.y); return 0; }
