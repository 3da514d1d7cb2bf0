import cases_fields
import cases_ops

CASES = dict(cases_fields.CASES)
CASES.update(cases_ops.CASES)
import cases_formats
CASES.update(cases_formats.CASES)
import cases_trip
CASES.update(cases_trip.CASES)
import cases_heap
CASES.update(cases_heap.CASES)
import cases_late
CASES.update(cases_late.CASES)
import cases_alias
CASES.update(cases_alias.CASES)
import cases_util
CASES.update(cases_util.CASES)
import cases_objects
CASES.update(cases_objects.CASES)
import cases_zones
CASES.update(cases_zones.CASES)
import cases_elements
CASES.update(cases_elements.CASES)
import cases_surrogates
CASES.update(cases_surrogates.CASES)
import cases_registry
CASES.update(cases_registry.CASES)
import cases_threads
CASES.update(cases_threads.CASES)
import cases_construct
CASES.update(cases_construct.CASES)
import cases_errors
CASES.update(cases_errors.CASES)
import cases_text
CASES.update(cases_text.CASES)
import cases_clock
CASES.update(cases_clock.CASES)
import cases_docs
CASES.update(cases_docs.CASES)
import cases_depict
CASES.update(cases_depict.CASES)
