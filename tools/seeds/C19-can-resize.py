PROPERTY = 'C19'
EDITS = [
    ('atrcopy/segments.py',
     "        self.can_resize = state.pop('can_resize', self.__class__.can_resize_default)\n",
     "        state.pop('can_resize', None)\n        self.can_resize = self.__class__.can_resize_default\n"),
]
NEEDS = 'a segment made resizable (or not) individually, then saved and restored'
BREAKS = 'the restored segment has lost the setting'
DEMO = r'''
import json, numpy as np, jsonpickle
from atrcopy.segments import SegmentData, DefaultSegment
s = DefaultSegment(SegmentData(np.arange(20, dtype=np.uint8)))
s.can_resize = True
t = jsonpickle.decode(jsonpickle.encode(s))
assert t.can_resize is True
'''
