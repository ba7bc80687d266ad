"""Network seam: the transport adapter underneath requests.  Serves in-memory files, with planned faults."""
import io

from . import kernel as K

SERVED = {}                       # url -> bytes
NET = {'requests': 0, 'plan': {}, 'fired': {}}


def arm(plan):
    """plan: {request number (1-based) or 'all': fault}; faults: refuse, 404, 503, drop, cut, flip, html"""
    NET['requests'] = 0
    NET['plan'] = dict(plan)
    NET['fired'] = {}


class Body(io.RawIOBase):
    def __init__(self, data, drop_at=None):
        self.b, self.drop_at, self.pos = data, drop_at, 0

    def readable(self):
        return True

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def read(self, n=-1, **kw):
        k = K.KERNEL
        if k is not None and k.active and k.in_sim():
            k.sleep(0.01)
        end = len(self.b) if self.drop_at is None else min(self.drop_at, len(self.b))
        if self.pos >= end and self.drop_at is not None:
            raise ConnectionResetError('connection reset by peer (simulated)')
        if n is None or n < 0:
            out = self.b[self.pos:end]
        else:
            out = self.b[self.pos:min(end, self.pos + n)]
        self.pos += len(out)
        return out


def install():
    import requests
    from requests.adapters import HTTPAdapter
    from urllib3 import HTTPResponse

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        NET['requests'] += 1
        n = NET['requests']
        fault = NET['plan'].get(str(n)) or NET['plan'].get('all')
        k = K.KERNEL
        if k is not None and k.active and k.in_sim():
            k.sleep(0.2)
        if fault:
            NET['fired'][fault] = NET['fired'].get(fault, 0) + 1
        if fault == 'refuse':
            raise requests.exceptions.ConnectionError('connection refused (simulated)', request=request)
        if fault == 'timeout':
            raise requests.exceptions.ReadTimeout('timed out (simulated)', request=request)
        data = SERVED.get(request.url)
        status, headers, drop = 200, {}, None
        if data is None:
            status, data = 404, b'not found'
        if fault in ('404', '503'):
            status, data = int(fault), b'<html>error</html>'
        headers['Content-Length'] = str(len(data))
        if fault == 'drop':
            drop = len(data) // 2
        if fault == 'drop0':
            drop = 0
        if fault == 'cut':                       # ends early, the announced length tells
            data = data[:len(data) * 2 // 3]
        if fault == 'cut_silent':                # ends early and nothing tells
            data = data[:len(data) * 2 // 3]
            headers.pop('Content-Length')
        if fault == 'flip':
            i = len(data) // 3
            data = data[:i] + bytes([data[i] ^ 0x55]) + data[i + 1:]
        resp = HTTPResponse(body=Body(data, drop), headers=headers, status=status, preload_content=False,
                            decode_content=False, request_method=request.method, enforce_content_length=True)
        return self.build_response(request, resp)
    HTTPAdapter.send = send
