#include <stdio.h>
#include <stdbool.h>
int main(void) { bool b = true; if (b) { printf("yes\n"); } return 0; }
