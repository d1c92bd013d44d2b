DEFAULT = ('TLC explores the design model exhaustively within its bounds; the real code is bound to the same specification by validating '
           'event traces of seeded random histories and of TLC-generated behaviours (exact rational arithmetic as oracle). Inputs outside '
           'the sampled families are not covered; rounding is covered by tolerances; compiler, ASan/UBSan and TLC are trusted.')
