PROPERTY = 'C20'
EDITS = [
    ('atrcopy/segments.py',
     '            styles = self.style[start:end].copy()\n            items = {}\n',
     '            styles = self.style[start:end]\n            items = {}\n'),
]
NEEDS = "undo data taken from a segment that isn't indexed, then a style change, then the undo"
BREAKS = 'the saved styles are a live view, so the undo restores nothing'
DEMO = r'''
import numpy as np
from atrcopy.segments import SegmentData, DefaultSegment
s = DefaultSegment(SegmentData(np.arange(20, dtype=np.uint8)))
s.set_style_ranges([[2, 4]], user=2)
r = s.get_comment_restore_data([[0, 10]])
s.set_comment([[3, 6]], "hi")
s.restore_comments(r)
assert s.style.tolist() == [0, 0, 2, 2] + [0] * 16, s.style.tolist()
assert s.get_comment(3) == ""
'''
