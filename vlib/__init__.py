from . import watch
