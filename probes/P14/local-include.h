#define LIMIT 3
