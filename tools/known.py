"""Writes known_findings.json from the fix: commits in /repo (their property is given here)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTY = [  # prefix of commit subject -> property
    ('combine wildcard dims', 'C12'), ('is_valid_unit', 'C16'), ('datetime raises', 'C23'),
    ('get_constants_string', 'C17'), ('registering a tracer', 'C18'), ('count a tracer', 'C26'),
    ('ScalingWrapper', 'C13'), ('tendencies_in_diagnostics', 'C06'), ('Stepper', 'C06'),
    ('composites can add', 'C11'), ('NetCDFMonitor', 'C19'), ('RestartMonitor', 'C20'),
    ('SSPRungeKutta', 'C09'), ('outputs with a wildcard', 'C04'), ('AdamsBashforth and Leapfrog', 'C07'),
    ('time steppers can put', 'C06'), ('wildcard dims of tracers', 'C18'), ('TimeDifferencingWrapper', 'C15'),
    ('degrees_north', 'C16'), ('constant and relaxation', 'C06'), ('restore_data_arrays', 'C26'),
    ('composites can combine', 'C12'), ('str of', 'C29'), ('wrappers can be copied', 'C29'), ('an alias which is', 'C04'),
    ('components without prepended', 'C12'), ('converting units of integers', 'C16'),
    ('jit without', 'C26'), ('composites do not lose', 'C11'),
]
KNOWN = [{
    'id': 'C06-property-attributes', 'property': 'C06',
    'what': 'a Stepper subclass whose input/output/diagnostic_properties are @property attributes returning a new '
            'dictionary on each access, made with tendencies_in_diagnostics=True, does not return or declare them (the '
            'tendency properties are inserted in a dictionary that is thrown away)',
}]


def main():
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines()
    fixed = []
    for line in log:
        commit, subject = line.split(' ', 1)
        if not subject.startswith('fix: '):
            continue
        text = subject[5:]
        prop = [p for prefix, p in PROPERTY if text.startswith(prefix)]
        assert prop, text
        fixed.append('fixed: property={} {} {}'.format(prop[0], commit, text))
    with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
        json.dump({'known': KNOWN, 'fixed': fixed}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
