"""prints the table of DESIGN.md section 2 from the evidence of the last run of every check"""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'evidence')
print('| property | functions proved | obligations | solver CPU (s) | wall, quick (s) | bounded harness cases |')
print('|---|---|---|---|---|---|')
for i in range(1, 23):
    f = os.path.join(D, 'C%02d.json' % i)
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e['coverage']
    print('| C%02d | %d | %d | %.0f | %.0f | %d |' % (i, len(c['functions_proved']), c['discharged'], c['solver_time_s'], e['wall_s'], c['bounded_replay']['cases']))
