PROPERTY = 'C18'
EDITS = [
    ('atrcopy/segments.py',
     "        self.data_length = len(self.data)\n        # Force regeneration of reverse index mapping the next time it's needed\n        self._reverse_index_mapping = None\n",
     '        self.data_length = len(self.data)\n'),
    ('atrcopy/segments.py',
     '            self.data = to_numpy(data)\n        self.calc_lookups()\n',
     "            self.data = to_numpy(data)\n        self._reverse_index_mapping = None  # generated when it's needed\n        self.calc_lookups()\n"),
]
NEEDS = 'asking for an index from a base index, then resizing the container, then asking again for a byte in the new part'
BREAKS = "the cached mapping is stale: the index isn't found"
DEMO = r'''
import numpy as np
from atrcopy.segments import SegmentData, DefaultSegment
s = DefaultSegment(SegmentData(np.arange(20, dtype=np.uint8)))
s.can_resize = True
assert s.get_index_from_base_index(5) == 5
s.resize(40)
assert s.get_index_from_base_index(30) == 30
'''
