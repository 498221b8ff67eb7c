// Minimal valid C program
int main() {
    return 0;
}
