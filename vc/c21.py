from vc.insert_ import *

for look in (False, True):
    unit("C21", "insert_first_n_requests keeps the schedule feasible%s" % (", look angles" if look else ""), ["insert_first_n_requests", "is_window_within_vtw_bounds", "does_window_meet_deadline", "is_image_quality_met", "does_conflict_exist", "RequestHandler.schedule_request"])(run(("feasible", "count"), look))

from vc import ops_
for name, what, mod in ops_.INSERTIONS:
    unit("C21", name, [name])(ops_.insertion("C21", name, what, mod))
for name in ["random_removal"] + [x for x, _ in ops_.REMOVALS]:
    unit("C21", name, [name])(ops_.feasible_removal(name))
