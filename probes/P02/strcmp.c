#include <stdio.h>
#include <string.h>

int main(void) {
    const char *s = "abc";
    if (strcmp(s, "xyz") == 0) printf("same\n");
    else printf("different\n");
    return 0;
}
