"""A stand-in for the testbed-server on the loopback device that records what it is asked."""
import json
import threading
from http.server import BaseHTTPRequestHandler, HTTPServer
from urllib.parse import parse_qsl, urlsplit


class Stub:
    """Answers like the testbed-server; `faults` decides what goes wrong."""

    def __init__(self, users):
        self.users, self.log, self.faults = users, [], {}
        stub = self

        class Handler(BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def reply(self, code, body):
                body = body if isinstance(body, bytes) else json.dumps(body).encode()
                self.send_response(code)
                self.send_header("Content-Length", str(len(body)))
                self.send_header("Content-Type", "application/json")
                self.end_headers()
                self.wfile.write(body)

            def serve(self):
                u = urlsplit(self.path)
                body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
                q = dict(parse_qsl(u.query, keep_blank_values=True))
                what = {"/tb/session_key": "key", "/tb/user": "user", "/tb/add": "add"}.get(u.path, "other")
                stub.log.append({"method": self.command, "what": what, "token": q.get("token", "-"), "extra": len(set(q) - {"token"}), "body": body})
                fault = stub.faults.get(what, "ok")
                if fault[:1].isdigit():
                    return self.reply(int(fault), {"value": "x", "name": "intruder", "group": "intruders", "email": "a@b.org"})
                if fault == "nojson":
                    return self.reply(200, b"<html>")
                if fault == "novalue":
                    return self.reply(200, {})
                if what == "key":
                    return self.reply(200, {"value": "session"})
                if what == "user":
                    if q.get("token") not in stub.users:
                        return self.reply(401, {})
                    return self.reply(200, stub.users[q["token"]])
                return self.reply(200, {}) if what == "add" else self.reply(404, {})

            do_GET = do_POST = do_PUT = do_DELETE = serve  # noqa: N815

        self.srv = HTTPServer(("127.0.0.1", 0), Handler)
        self.url = f"http://127.0.0.1:{self.srv.server_port}/tb"
        threading.Thread(target=self.srv.serve_forever, kwargs={"poll_interval": 0.01}, daemon=True).start()

    def take(self):
        out, self.log[:] = list(self.log), []
        return out

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()
