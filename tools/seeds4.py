S = []
def seed(**k): S.append(k)
SEEDS = S
E, P = 'nonasymptotic/envs.py', 'nonasymptotic/prm.py'
HEAD = '''import numpy as np
from nonasymptotic.envs import GrayCodeWalls
'''
WALK = "            if (self._distance_to_wall_in_cube(start_cube, start) < 0.0\n                    or self._distance_to_wall_in_cube(start_cube, motion_point_at_opening) < 0.0):\n"
seed(id='c08-leaving-start', property='C08', needs='thick walls and a motion that starts inside a wall and leaves its cell through the middle of the opening',
 what_it_breaks='the start of a motion that leaves its cell is not checked against the walls',
 edits={E: [(WALK, "            # (the far end of this piece is the beginning of the next one)\n            if self._distance_to_wall_in_cube(start_cube, motion_point_at_opening) < 0.0:\n")]},
 demo=HEAD + '''env = GrayCodeWalls(2, 2, 0.25)
# cells (0,0) (0,1) (1,1) (1,0): up from the wall at the left into the next cell
assert not env.is_motion_valid(np.array([0.125, 0.5]), np.array([0.5, 1.5]))
assert env.is_motion_valid(np.array([0.3125, 0.5]), np.array([0.5, 1.5]))
''')
seed(id='c08-backwards-ends', property='C08', needs='thick walls and a motion backwards along the corridor that passes within the thickness of the end of a wall',
 what_it_breaks='backwards along the corridor, the point where a motion leaves its cell is only checked against the walls of the cell it enters',
 edits={E: [("                    or self._distance_to_wall_in_cube(start_cube, motion_point_at_opening) < 0.0):", "                    or self._distance_to_wall_in_cube(start_cube if searching_forward else next_cube,\n                                                      motion_point_at_opening) < 0.0):")]},
 demo=HEAD + """env = GrayCodeWalls(2, 2, 0.25)
# cells (0,0) (0,1) (1,1) (1,0): the wall between (0,0) and (1,0) ends at (1, 1); the motion meets y = 1 at x = 1.125
assert not env.is_motion_valid(np.array([1.375, .25]), np.array([.875, 1.75]))
assert env.is_motion_valid(np.array([1.5, .25]), np.array([1., 1.75]))
""")
