#include <stdio.h>
int main(void) { printf("[%10s]\n", "ab"); return 0; }
