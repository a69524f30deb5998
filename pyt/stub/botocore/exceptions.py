class ClientError(Exception): pass
