#include <stdio.h>
int main(void) { printf("%+d\n", 5); return 0; }
