# stand-ins for the two sibling distributions of the FiXiF namespace that are not
# available offline (fixif.WCPG and fixif.FxP); /repo's fixif/__init__.py extends its
# __path__ over sys.path, so the packages below are found next to the real ones.
__path__ = __import__('pkgutil').extend_path(__path__, __name__)
