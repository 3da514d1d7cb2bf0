"""How many cases each tier of each property runs, and which bounded models."""


ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0',
         'IST-1GMT0,M10.5.0,M3.5.0/1', '<+0545>-5:45', '<-12>12', '<+14>-14', 'Europe/Moscow']


def plan(quick, thorough, **kw):
    return dict(quick=quick, thorough=thorough, **kw)


HEAP = dict(module='MC_Heap', quick='MC_Heap.cfg', thorough='MC_Heap_thorough.cfg')

PLANS = {
    'C01': plan(7500, 150000),
    'C02': plan(7500, 150000),
    'C03': plan(7500, 100000),
    'C04': plan(7500, 100000),
    'C05': plan(6000, 100000),
    'C06': plan(6000, 100000),
    'C07': plan(6000, 80000),
    'C08': plan(3600, 150000),
    'C09': plan(6000, 100000),
    'C10': plan(4500, 80000),
    'C11': plan(3700, 60000),
    'C12': plan(9000, 120000),
    'C13': plan(7500, 100000),
    'C14': plan(6000, 80000),
    'C15': plan(4500, 60000),
    'C16': plan(9000, 120000),
    'C17': plan(6000, 80000),
    'C18': plan(4500, 80000),
    'C19': plan(3600, 40000, chunk=450, mc=[HEAP]),
    'C20': plan(3600, 40000, chunk=450, mc=[HEAP]),
    'C21': plan(7500, 100000),
    'C22': plan(3000, 60000),
    'C23': plan(9000, 150000),
    'C24': plan(9000, 150000),
    'C25': plan(3600, 60000),
    'C26': plan(3600, 60000),
    'C27': plan(2400, 60000, chunk=240, tz=list(ZONES), mc=[dict(module='MC_Zones', quick='MC_Zones.cfg', thorough='MC_Zones_thorough.cfg')]),
    'C28': plan(2400, 30000, mc=[dict(module='MC_Concurrent', quick='MC_Concurrent.cfg', thorough='MC_Concurrent_thorough.cfg')]),
    'C29': plan(2400, 30000),
    'C30': plan(4500, 60000, mc=[dict(module='MC_Objects', quick='MC_Objects.cfg', thorough='MC_Objects_thorough.cfg')]),
    'C31': plan(9000, 150000, mc=[dict(module='MC_Nested', quick='MC_Nested.cfg', thorough='MC_Nested_thorough.cfg')]),
    'C32': plan(6000, 100000),
    'C33': plan(6000, 80000, mc=[dict(module='MC_Construct', quick='MC_Construct.cfg', thorough='MC_Construct_thorough.cfg')]),
    'C34': plan(3600, 60000),
    'C35': plan(6000, 100000, mc=[dict(module='MC_Errors', quick='MC_Errors.cfg', thorough='MC_Errors_thorough.cfg')]),
    'C36': plan(6000, 100000, mc=[dict(module='MC_Printing', quick='MC_Printing.cfg', thorough='MC_Printing_thorough.cfg')]),
    'C37': plan(6000, 100000, chunk=600, tz=list(ZONES), mc=[dict(module='MC_Zones', quick='MC_Zones.cfg', thorough='MC_Zones_thorough.cfg')]),
    'C38': plan(4500, 60000, mc=[dict(module='MC_Docs', quick='MC_Docs.cfg', thorough='MC_Docs_thorough.cfg')]),
    'C39': plan(8000, 80000, mc=[dict(module='MC_Depict', quick='MC_Depict.cfg', thorough='MC_Depict_thorough.cfg')]),
}
