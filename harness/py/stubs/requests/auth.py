class HTTPBasicAuth:
    def __init__(self, username, password):
        self.username, self.password = username, password
