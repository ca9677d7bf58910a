S.IFCONV = True
