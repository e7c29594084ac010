"""Which module decides which property."""
import importlib

CORE = ('C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C09', 'C10', 'C12', 'C13', 'C14')
OTHER = {'C06': 'twin', 'C11': 'evals', 'C15': 'live', 'C16': 'writer', 'C17': 'resume', 'C18': 'crash', 'C20': 'files', 'C21': 'hist', 'C22': 'reader', 'C23': 'control', 'C19': 'writer', 'C24': 'evals', 'C26': 'backend', 'C27': 'qqd', 'C28': 'goback', 'C29': 'plots'}


def module(prop):
    if prop in CORE:
        m = importlib.import_module('sim.props.core')
        return m.Module(prop)
    return importlib.import_module('sim.props.' + OTHER[prop]).Module(prop)


def all_properties():
    return sorted(CORE + tuple(OTHER))
