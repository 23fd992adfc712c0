"""Dispatch to the check of a property."""
import importlib
import sys

from vlib import common

MODULES = {
    'P01': 'pychecks', 'P04': 'pychecks',
    'P02': 'gochecks', 'P05': 'gochecks',
    'P07': 'trichecks',
    'P08': 'hostile',
    'P10': 'caps',
    'P11': 'durations',
    'P12': 'formats',
    'P13': 'loading', 'P17': 'clashes',
    'P14': 'wellformed', 'P15': 'wellformed', 'P16': 'wellformed',
    'P18': 'commands', 'P19': 'commands', 'P20': 'agreement',
    'P21': 'purity', 'P22': 'limits', 'P23': 'metamorphic',
    'P24': 'selftests', 'P25': 'representation',
    'P26': 'messages', 'P27': 'annotations',
    'P03': 'cppchecks', 'P06': 'cppchecks', 'P09': 'cppchecks',
}


def main():
    """Run the check."""
    prop = sys.argv[1]
    module = importlib.import_module('checks.' + MODULES[prop])
    func = getattr(module, prop.lower())
    common.run_check(func)


if __name__ == '__main__':
    main()
