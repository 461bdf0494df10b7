class ServiceFault(Exception):
    def __init__(self, faultstring='', detail=None):
        self.faultstring = faultstring
        self.detail = detail
        super().__init__(faultstring)


class ClientFault(ServiceFault):
    pass


class ServerFault(ServiceFault):
    pass
