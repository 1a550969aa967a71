from vc.insert_ import *

for look in (False, True):
    unit("C24", "insert_first_n_requests%s" % (", look angles" if look else ""), ["insert_first_n_requests", "is_window_within_vtw_bounds", "does_window_meet_deadline", "is_image_quality_met", "does_conflict_exist", "RequestHandler.schedule_request"])(run(("frame",), look))

from vc import ops_
for name, what, mod in ops_.INSERTIONS:
    unit("C24", name, [name])(ops_.insertion("C24", name, what, mod))
