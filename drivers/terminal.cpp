// Makes the command-line helpers, which no translation unit of the repository includes, available to the analysis.
#include <algorithm>
#include <functional>
#include <string>
#include <terminal.h>
