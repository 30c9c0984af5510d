import hashlib
class SHA256: name = "sha256"
