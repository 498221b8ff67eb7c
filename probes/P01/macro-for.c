#include <stdio.h>
#define EACH(i, n) for (int i = 0; i < (n); i++)
int main(void) { EACH(i, 3) { printf("%d\n", i); } return 0; }
