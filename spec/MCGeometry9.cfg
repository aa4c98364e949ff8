CONSTANT LONS = {0, 1, 10, 45, 90, 179, 180, 181, 225, 270, 350, 359, 360, 365, 450, 530, 539}
CONSTANT STEPS = {1, 10, 45, 90, 120}
CONSTANT SIZES = {1, 2, 3, 4, 5, 6, 7, 8, 9, 13}
CONSTANT CENTRES = {0, 83, 180, 270, 360}
INIT Init
NEXT Next
INVARIANT Located
CHECK_DEADLOCK FALSE
