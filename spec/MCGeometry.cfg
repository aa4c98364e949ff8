CONSTANT LONS = {0, 10, 90, 180, 270, 350, 359, 365, 530}
CONSTANT STEPS = {1, 10, 45, 90, 120}
CONSTANT SIZES = {1, 2, 3, 4, 5}
CONSTANT CENTRES = {0, 83, 180, 270, 360}
INIT Init
NEXT Next
INVARIANT Located
CHECK_DEADLOCK FALSE
