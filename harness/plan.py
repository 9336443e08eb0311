"""What each property's check runs: number of histories per tier, and the specification-level checks."""

MC = 'model_checking'
PLAN = {}


def add(pid, quick, level=MC, models=(), rnd=None):
    PLAN[pid] = {'quick': quick, 'level': level, 'models': list(models), 'round': rnd or max(quick, 240)}


for pid, q in [('C01', 240), ('C02', 240), ('C03', 240), ('C04', 320), ('C05', 400), ('C06', 400), ('C07', 400), ('C08', 480),
               ('C09', 320), ('C10', 320), ('C11', 240), ('C12', 240), ('C13', 240), ('C14', 240), ('C15', 280), ('C16', 240),
               ('C17', 240), ('C18', 100), ('C19', 100), ('C20', 100), ('C21', 100), ('C22', 240), ('C23', 240), ('C24', 240), ('C25', 200)]:
    add(pid, int(q * 5))

# mechanism model (ChCache.tla): histories replayed for these properties
for pid, m in [('C01', 'values'), ('C02', 'derivatives'), ('C10', 'views'), ('C12', 'hooks'), ('C13', 'hooks'), ('C15', 'deep')]:
    PLAN[pid]['models'].append(('cache', m))
for pid in ('C18', 'C19'):
    PLAN[pid]['models'].append(('dogleg', 'dogleg'))
