from vc.remove_ import *

unit("C23", "the first scheduled requests are removed", ["_remove_first_n_scheduled_requests", "RequestHandler.unschedule_request", "RequestHandler.unschedule_all_requests"])(run_removal("_remove_first_n_scheduled_requests", True))
unit("C23", "random removal", ["random_removal", "RequestHandler.unschedule_request", "RequestHandler.unschedule_all_requests"])(run_removal("random_removal", False))

from vc import ops_
for name, what in ops_.REMOVALS:
    unit("C23", name, [name])(ops_.removal(name, what))
