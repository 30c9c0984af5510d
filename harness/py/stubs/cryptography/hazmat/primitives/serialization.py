import enum
class Encoding(enum.Enum):
    PEM = "PEM"; DER = "DER"
class PublicFormat(enum.Enum):
    SubjectPublicKeyInfo = "spki"; PKCS1 = "pkcs1"
