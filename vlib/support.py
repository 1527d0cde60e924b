""" Access to the code under test, and reset of its global state """
import io
import logging
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
_HYPOTHESIS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_loaded = False


def load():
    """ Import third-party libraries, then MyCapytain from the working tree """
    global _loaded
    if _loaded:
        return
    warnings.simplefilter("ignore")
    try:
        import hypothesis  # noqa
    except ImportError:
        # appended last: only provides what the venv lacks
        sys.path.append(_HYPOTHESIS)
        try:
            import hypothesis  # noqa
        except ImportError:
            wheels = "/opt/veriftools/wheels"
            for name in sorted(os.listdir(wheels)):
                if name.split("-")[0] in ("hypothesis", "sortedcontainers", "attrs"):
                    sys.path.append(os.path.join(wheels, name))
            import hypothesis  # noqa
    import lxml.etree  # noqa
    import lxml.objectify  # noqa
    import rdflib  # noqa
    import rdflib.plugins.serializers.rdfxml  # noqa
    import requests  # noqa
    import pyld  # noqa
    import link_header  # noqa
    # From here on (the code under test) no stale bytecode can be picked up
    sys.pycache_prefix = os.path.join(os.environ.get("VERIF_SCRATCH", "/nonexistent"), "pyc")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import MyCapytain
    got = os.path.realpath(os.path.dirname(os.path.dirname(MyCapytain.__file__)))
    if got != os.path.realpath(REPO):
        raise RuntimeError("MyCapytain comes from {} and not from {}".format(got, REPO))
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    _loaded = True


def reset():
    """ New global RDF graph: nothing is carried from one case to the next """
    from MyCapytain.common import constants
    constants.set_graph(constants.bind_graph())


def quiet():
    """ Redirect stderr noise (pyparsing, rdflib...) """
    return io.StringIO()
