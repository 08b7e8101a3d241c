import socket,fcntl,struct,sys,os
s=socket.socket(socket.AF_INET,socket.SOCK_DGRAM)
ifr=struct.pack('16sH14s',b'lo',0x1|0x40,b'')
fcntl.ioctl(s,0x8914,ifr); os.execvp(sys.argv[1],sys.argv[1:])
