SPECIFICATION GSpec
CONSTANTS Lens = {0, 4, 5, 6, 50, 960, 1000, 1040, 2500}
 Rates = {100, 1000}
 Marks <- FewMarks
 Limits = {5, 50, 4000}
 MaxOps = 2
