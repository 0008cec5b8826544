_B = 'Bounded by what the seeded workload reaches; a reference that is independent of the code decides every observation. '
for _p in TECH:
    NOTE[_p] = _B
