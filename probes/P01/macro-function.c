#include <stdio.h>
#define SQ(x) ((x) * (x))
int main(void) { printf("%d\n", SQ(5)); return 0; }
