""" Stand-in for the network: whatever is sent through requests is answered by a handler, nothing leaves the process """
from io import BytesIO
from urllib.parse import parse_qsl, urlsplit


class Asked(object):
    """ A request as it would go over the wire """

    def __init__(self, prepared):
        self.method = prepared.method
        self.url = prepared.url
        self.headers = prepared.headers
        self.body = prepared.body
        parts = urlsplit(prepared.url)
        self.base = "{}://{}{}".format(parts.scheme, parts.netloc, parts.path)
        self.path = parts.path
        #: decoded parameters, in order, repeated ones included
        self.pairs = parse_qsl(parts.query, keep_blank_values=True, errors="strict")
        self.params = dict(self.pairs)
        self.fragment = parts.fragment


class Wire(object):
    """ Context: requests are given to `handler(Asked)`, which returns (status, headers, bytes) or raises

    :ivar log: every request
    """

    def __init__(self, handler):
        self.handler = handler
        self.log = []

    def __enter__(self):
        import requests.adapters
        import urllib3
        self._adapters = requests.adapters
        self._send = requests.adapters.HTTPAdapter.send

        def send(adapter, prepared, **kwargs):
            asked = Asked(prepared)
            self.log.append(asked)
            status, headers, body = self.handler(asked)
            raw = urllib3.HTTPResponse(body=BytesIO(body), headers=headers, status=status, preload_content=False)
            return adapter.build_response(prepared, raw)

        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *args):
        self._adapters.HTTPAdapter.send = self._send
