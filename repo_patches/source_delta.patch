From 1f319beba12ed2a40286f8a9ee0813538ecb6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 01/35] fix: initialise the bound-override flags of new
 datatypes

Type_struct left o_lb/o_ub uninitialised when no bound was overridden, so the
extent of any derived type depended on recycled heap contents.
---
 type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/type.c b/type.c
index 4e7d661..6f4a6ab 100644
--- a/type.c
+++ b/type.c
@@ -312,6 +312,8 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                ((simpletype_count-1) * sizeof(typepair)));
 
   temp->count = simpletype_count;
+  temp->o_lb = 0;
+  temp->o_ub = 0;
 
   i = 0;         //old type's index
   newcount = 0;  //new type's index
-- 
2.43.0


From 9c63b566885055b512329e0f1bff897c81f50e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 02/35] fix: make MPI_Aint a signed integer

Displacements and bounds may be negative.  With an unsigned MPI_Aint the
comparisons selecting explicit MPI_LB/MPI_UB bounds ignored negative lower
bounds and replaced positive upper bounds by LONG_MIN.
---
 mpi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi.h b/mpi.h
index 82cff25..b66e48f 100644
--- a/mpi.h
+++ b/mpi.h
@@ -63,7 +63,7 @@ typedef int MPI_Group;
  * Data types etc.
  */
 
-typedef unsigned long int MPI_Aint;
+typedef long int MPI_Aint;
 #define MPI_BOTTOM (0)
 #define MPI_IN_PLACE (void *)(-1)
 typedef int MPI_Datatype;
-- 
2.43.0


From 2260332fbe47b7e3388d4f196b11212089f1c62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 03/35] fix: give empty datatypes size, bounds and extent 0

A type without elements (count or block length 0) had lb INT_MAX, ub INT_MIN and
a garbage extent, and could be mistaken for MPI_LB/MPI_UB by its uninitialised
first pair.  Also keep lower bounds above 2 GiB, which were truncated to int.
---
 type.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/type.c b/type.c
index 6f4a6ab..81bd684 100644
--- a/type.c
+++ b/type.c
@@ -45,7 +45,7 @@ Datatype* mpi_handle_to_datatype(int handle)
 
 int calc_padding(Datatype datatype)
 {
-  long size_max = INT_MIN;
+  long size_max = 1;   //smallest simple type; also avoids "% 0" if empty
   long type_len;
   int i;
   //find the largest datatype size.  The epsilon padding is (probably) based on this.
@@ -147,9 +147,12 @@ int Simpletype_length(Simpletype t)
 long calc_lb(Datatype type)
 {
   int i;
-  int min_disp = INT_MAX;
+  long min_disp = LONG_MAX;
   typepair * tp;
 
+  if (type->count == 0)
+    return 0;
+
   for(i =0; i < type->count; i++)
   {
     tp =  type->pairs+i;
@@ -168,9 +171,12 @@ long calc_lb(Datatype type)
 long calc_ub(Datatype type)
 {
   int i;
-  long max_disp = INT_MIN;
+  long max_disp = LONG_MIN;
   typepair * tp;
 
+  if (type->count == 0)
+    return 0;
+
   for(i = 0; i < type->count; i++)
   {
     tp = type->pairs+i;
@@ -190,9 +196,9 @@ int Type_extent(Datatype datatype, MPI_Aint * extent)
 
   if (!(datatype->o_lb || datatype->o_ub))
   {
-    int epsilon = calc_padding(datatype);
+    long epsilon = calc_padding(datatype);
     //current epsilon value is based off of largest datatype size
-    int mod = (datatype->ub - datatype->lb) % epsilon;
+    long mod = (datatype->ub - datatype->lb) % epsilon;
     if (mod == 0)
       epsilon = 0;
     else
@@ -312,6 +318,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                ((simpletype_count-1) * sizeof(typepair)));
 
   temp->count = simpletype_count;
+  temp->pairs[0].type = SIMPLE_BYTE; //not a bound marker, even if empty
   temp->o_lb = 0;
   temp->o_ub = 0;
 
-- 
2.43.0


From 7a999997b96a891baa1e25eaf3d2648bb041abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 04/35] fix: ignore bounds of zero-length blocks in Type_struct

A block of length 0 whose type has explicit bounds set the override flags
without supplying a bound, leaving lb LONG_MAX or ub LONG_MIN.
---
 type.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 81bd684..7a80b63 100644
--- a/type.c
+++ b/type.c
@@ -283,7 +283,12 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
     // cases and will be skipped over
 
     temp2 = oldtypes_ptr[i];
-    if (temp2->pairs[0].type == SIMPLE_LOWER)
+    if (blocklens[i] == 0)
+    {
+      //no copies of this type: its bounds do not count either
+      continue;
+    }
+    else if (temp2->pairs[0].type == SIMPLE_LOWER)
     {
       //found MPI_LB.  This is a candidate for the actual lb
       if (new_lb > displacements[i])
-- 
2.43.0


From ed5ebc6bea6d8bbb85b2c37a13b26ee2b464d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 05/35] fix: compute byte offsets of data movement in MPI_Aint

Offsets in copy_data2 and the vector collectives were truncated to int, which
moved the wrong memory for displacements beyond 2 GiB, e.g. absolute addresses
used with MPI_BOTTOM.
---
 collective.c | 10 +++++-----
 copy.c       |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/collective.c b/collective.c
index 39c5361..607fd66 100644
--- a/collective.c
+++ b/collective.c
@@ -108,7 +108,7 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		void* recvbuf, int *recvcounts, int *displs,
 		MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -186,7 +186,7 @@ int MPI_Allgatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		   void* recvbuf, int *recvcounts, int *displs,
                    MPI_Datatype recvtype, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -266,7 +266,7 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
 		 MPI_Datatype sendtype, void* recvbuf, int recvcount,
 		 MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint st_extent;
 
   if (recvbuf==MPI_IN_PLACE)
@@ -449,8 +449,8 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
-  int send_offset;
-  int recv_offset;
+  MPI_Aint send_offset;
+  MPI_Aint recv_offset;
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
diff --git a/copy.c b/copy.c
index f231600..90601cc 100644
--- a/copy.c
+++ b/copy.c
@@ -43,7 +43,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
   int i;
-  int soffset, doffset;
+  MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
   //commit checking here, since if any datatype is used in this function
-- 
2.43.0


From 34d51b486815e38780ff78334bba7ca5ff37480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 06/35] fix: receive an earlier message through the sender's
 count and datatype

MPI_Irecv used the receiver's layout to read the send buffer, so a receive
posted after the send got wrong data (and read past the send buffer) whenever
the two layouts differed.
---
 recv.c | 2 +-
 send.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/recv.c b/recv.c
index 37aa2c4..e31b1a1 100644
--- a/recv.c
+++ b/recv.c
@@ -78,7 +78,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_data2(sreq->buf, count, datatype, buf, count, datatype);
+      copy_data2(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
diff --git a/send.c b/send.c
index b2a0475..10862a4 100644
--- a/send.c
+++ b/send.c
@@ -83,6 +83,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   sreq->buf=buf;
+  sreq->count=count;
+  sreq->type=datatype;
   sreq->tag=tag;
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
-- 
2.43.0


From 6836402deb6b132ec4dd8f14de52ff46b1adcd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 07/35] fix: accept messages shorter than the receive

A receive may provide room for more elements than the message has.  It ended
the program with "Trying to over-receive"; deliver what was sent instead.
Collectives keep the check.
---
 copy.c | 64 +++++++++++++++++++++++++++++++++++++++++++++++++---------
 mpiP.h |  2 ++
 recv.c |  2 +-
 send.c |  2 +-
 4 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/copy.c b/copy.c
index 90601cc..2705c08 100644
--- a/copy.c
+++ b/copy.c
@@ -27,6 +27,10 @@ extern int Pcopy_data2(void *source, int src_count, Datatype src_type,
 		       void *dest, int dest_count, Datatype dest_type);
 
 
+static void copy_elements(void *source, Datatype src_type,
+                          void *dest, Datatype dest_type, int count);
+
+
 int copy_data2(void *source, int src_count, MPI_Datatype src_type,
                void *dest, int dest_count, MPI_Datatype dest_type)
 {
@@ -38,14 +42,8 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
 
 
 
-
-int Pcopy_data2(void *source, int src_count, Datatype src_type,
-                void *dest, int dest_count, Datatype dest_type)
+static void check_committed(Datatype src_type, Datatype dest_type)
 {
-  int i;
-  MPI_Aint soffset, doffset;
-  MPI_Aint src_extent, dest_extent;
-
   //commit checking here, since if any datatype is used in this function
   // it is considered "communication".  Should it be somewhere else?
 
@@ -54,6 +52,14 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
     fprintf(stderr, "Type not committed\n");
     exit(-1);
   }
+}
+
+
+
+int Pcopy_data2(void *source, int src_count, Datatype src_type,
+                void *dest, int dest_count, Datatype dest_type)
+{
+  check_committed(src_type, dest_type);
 
   // A receive of less elements than sent
   // is valid, but the reverse is a violation
@@ -64,10 +70,51 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
     exit(1);
   }
 
+  copy_elements(source, src_type, dest, dest_type,
+                dest_type->count * dest_count);
+  return MPI_SUCCESS;
+}
+
+
+
+/*
+ * Deliver a message.  Unlike in the collective operations, the message
+ * may also be shorter than the receive: only what was sent is delivered.
+ * Returns the number of elements (simple types) received.
+ */
+
+int copy_message(void *source, int src_count, MPI_Datatype src_type,
+                 void *dest, int dest_count, MPI_Datatype dest_type)
+{
+  Datatype src_ptr = *(Datatype*) mpi_handle_to_datatype(src_type);
+  Datatype dest_ptr = *(Datatype*) mpi_handle_to_datatype(dest_type);
+  int elements;
+
+  check_committed(src_ptr, dest_ptr);
+
+  elements = dest_ptr->count * dest_count;
+  if (src_ptr->count * src_count < elements)
+    elements = src_ptr->count * src_count;
+
+  copy_elements(source, src_ptr, dest, dest_ptr, elements);
+  return elements;
+}
+
+
+
+/* copy the first count elements (simple types) from source to dest */
+
+static void copy_elements(void *source, Datatype src_type,
+                          void *dest, Datatype dest_type, int count)
+{
+  int i;
+  MPI_Aint soffset, doffset;
+  MPI_Aint src_extent, dest_extent;
+
   Type_extent(src_type, &src_extent);
   Type_extent(dest_type, &dest_extent);
 
-  for (i = 0; i < dest_count * dest_type->count; i++)
+  for (i = 0; i < count; i++)
   {
 
 #ifdef TYPE_CHECKING
@@ -84,7 +131,6 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
 
     memcpy(dest+doffset, source+soffset, Simpletype_length(dest_type->pairs[i % dest_type->count].type));
   }
-  return MPI_SUCCESS;
 }
 
 
diff --git a/mpiP.h b/mpiP.h
index b03794f..b7a1987 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -108,6 +108,8 @@ typedef struct
 /* copy functions */
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
+extern int copy_message(void *source, int src_count, MPI_Datatype src_type,
+                        void *dest, int dest_count, MPI_Datatype dest_type);
 
 extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
diff --git a/recv.c b/recv.c
index e31b1a1..7a888ea 100644
--- a/recv.c
+++ b/recv.c
@@ -78,7 +78,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_data2(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
+      copy_message(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
diff --git a/send.c b/send.c
index 10862a4..8670f10 100644
--- a/send.c
+++ b/send.c
@@ -67,7 +67,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      copy_data2(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
+      copy_message(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
-- 
2.43.0


From 45b4e477d32401dc405688c4e457677aacac042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 08/35] fix: report the received length in every status

Only MPI_Recv set the count, to the number it had asked for; after Wait, Test,
Sendrecv, Probe and their variants MPI_Get_count/MPI_Get_elements returned
whatever the status contained.  Record the elements actually received.
---
 copy.c     |  9 +++++++++
 getcount.c | 15 ++++++++++++---
 mpi.h      |  2 +-
 mpiP.h     |  3 +++
 probe.c    |  1 +
 recv.c     |  7 +++----
 req.c      |  2 ++
 send.c     |  5 +++--
 8 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/copy.c b/copy.c
index 2705c08..ea29d2c 100644
--- a/copy.c
+++ b/copy.c
@@ -42,6 +42,15 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
 
 
 
+/* number of simple types in count items of a type */
+
+int mpi_type_elements(int count, MPI_Datatype type)
+{
+  return count * (*(Datatype*) mpi_handle_to_datatype(type))->count;
+}
+
+
+
 static void check_committed(Datatype src_type, Datatype dest_type)
 {
   //commit checking here, since if any datatype is used in this function
diff --git a/getcount.c b/getcount.c
index 565f107..fc192a3 100644
--- a/getcount.c
+++ b/getcount.c
@@ -18,7 +18,17 @@ int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
 
 int MPI_Get_count(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  *count = status->get_count;
+  /* the status holds the number of simple types received */
+
+  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
+
+  if (status->get_count == 0)
+    *count = 0;
+  else if (dt_ptr->count == 0 || status->get_count % dt_ptr->count != 0)
+    *count = MPI_UNDEFINED;
+  else
+    *count = status->get_count / dt_ptr->count;
+
   return(MPI_SUCCESS);
 }
 
@@ -36,8 +46,7 @@ int FC_FUNC( mpi_get_elements , MPI_GET_ELEMENTS )
 
 int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
-  *count = status->get_count * dt_ptr->count;
+  *count = status->get_count;
   return(MPI_SUCCESS);
 }
 
diff --git a/mpi.h b/mpi.h
index b66e48f..9428558 100644
--- a/mpi.h
+++ b/mpi.h
@@ -185,7 +185,7 @@ typedef struct                  /* Fortran: INTEGER status(MPI_STATUS_SIZE) */
   MPI_Status_int MPI_SOURCE;    /* Fortran: status(MPI_SOURCE) */
   MPI_Status_int MPI_TAG;       /* Fortran: status(MPI_TAG) */
   MPI_Status_int MPI_ERROR;     /* Fortran: status(MPI_ERROR) */
-  int            get_count;     /* Number specified for send */
+  int            get_count;     /* Number of simple types received */
 
 } MPI_Status;
 
diff --git a/mpiP.h b/mpiP.h
index b7a1987..e441995 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -100,6 +100,7 @@ typedef struct
   int complete;
   int count;
   MPI_Datatype type;  /* needed for test_simple_bindexed2 */
+  int elements;       /* number of simple types received */
 } Req;
 
 
@@ -111,6 +112,8 @@ extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
 extern int copy_message(void *source, int src_count, MPI_Datatype src_type,
                         void *dest, int dest_count, MPI_Datatype dest_type);
 
+extern int mpi_type_elements(int count, MPI_Datatype type);
+
 extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
 
diff --git a/probe.c b/probe.c
index 8b66042..076ce6d 100644
--- a/probe.c
+++ b/probe.c
@@ -53,6 +53,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
+	  status->get_count= mpi_type_elements(sreq->count,sreq->type);
 	}
     }
 
diff --git a/recv.c b/recv.c
index 7a888ea..dcdf5b7 100644
--- a/recv.c
+++ b/recv.c
@@ -62,6 +62,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
   mpi_alloc_handle(request,(void **)&rreq);
   rreq->type = datatype;
   rreq->count = count;
+  rreq->elements = 0;
   if (source==MPI_PROC_NULL)
     {
       rreq->complete=1;
@@ -78,7 +79,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_message(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
+      rreq->elements=copy_message(sreq->buf, sreq->count, sreq->type,
+                                  buf, count, datatype);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
@@ -134,9 +136,6 @@ int MPI_Recv(void *buf, int count, MPI_Datatype datatype, int source,
   MPI_Irecv(buf,count,datatype,source,tag,comm,&request);
   MPI_Wait(&request,status);
 
-  if (status!=MPI_STATUS_IGNORE)
-    status->get_count = count;   // rml: shouldn't this depend on send?
-
   return(MPI_SUCCESS);
 }
 
diff --git a/req.c b/req.c
index 6049663..ad6c4b9 100644
--- a/req.c
+++ b/req.c
@@ -26,6 +26,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_TAG= MPI_ANY_TAG;
 	  status->MPI_SOURCE= MPI_ANY_SOURCE;
+	  status->get_count= 0;
 	}
       *flag=1;
       return(MPI_SUCCESS);
@@ -42,6 +43,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
+	  status->get_count= req->elements;
 	}
 
       mpi_free_handle(*request);
diff --git a/send.c b/send.c
index 8670f10..49d054f 100644
--- a/send.c
+++ b/send.c
@@ -55,7 +55,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **) &sreq);
-
+  sreq->elements=0;
 
   if (dest==MPI_PROC_NULL)
     {
@@ -67,7 +67,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      copy_message(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
+      rreq->elements=copy_message(buf, count, datatype,
+                                  rreq->buf, rreq->count, rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
-- 
2.43.0


From ab060e8d20867eb6baf2093473b4efd0cd8bcb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 09/35] fix: implement MPI_Type_dup

It is declared in mpi.h and documented, but only an internal helper existed,
which allocated 8 bytes and lost the element count.
---
 type.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 7a80b63..3c901d9 100644
--- a/type.c
+++ b/type.c
@@ -683,12 +683,14 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
 {
   int i;
   //create a deep copy of given Datatype
-  *newtype = malloc(sizeof(oldtype));
+  *newtype = malloc(sizeof(Typestruct) + oldtype->count * sizeof(typepair));
+  (*newtype)->count = oldtype->count;
   (*newtype)->committed = oldtype->committed;
   (*newtype)->lb = oldtype->lb;
   (*newtype)->ub = oldtype->ub;
   (*newtype)->o_lb = oldtype->o_lb;
   (*newtype)->o_ub = oldtype->o_ub;
+  (*newtype)->pairs[0].type = SIMPLE_BYTE; //not a bound marker, even if empty
 
   for (i = 0; i < oldtype->count; i++)
   {
@@ -698,6 +700,23 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
   return MPI_SUCCESS;
 }
 
+int FC_FUNC( mpi_type_dup, MPI_TYPE_DUP )(int * oldtype, int * newtype, int * ierr)
+{
+  *ierr = MPI_Type_dup(*oldtype, newtype);
+  return MPI_SUCCESS;
+}
+
+int MPI_Type_dup(MPI_Datatype oldtype, MPI_Datatype * newtype)
+{
+  Datatype old_ptr = *(Datatype*) mpi_handle_to_datatype(oldtype);
+  Datatype * new_ptr;
+
+  mpi_alloc_handle(newtype, (void**) &new_ptr);
+  return Type_dup(old_ptr, new_ptr);
+}
+
+/*******************************************************/
+
 /* MPI_Type_size:  Returns the sum of the lengths of each simple
  * type that makes up the data type argument
  */
-- 
2.43.0


From 435c45a018c40d7144a12c475830a3344b7a4e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 10/35] fix: keep the datatype of a pending message when the
 user frees it

Pending requests looked the datatype handle up when they were matched; after
MPI_Type_free that was freed memory or, with the handle recycled, another type.
---
 copy.c | 40 +++++++++++++++++++++++++++++-----------
 mpiP.h | 12 ++++++++----
 recv.c |  5 +++--
 send.c |  5 +++--
 type.h |  3 ++-
 5 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/copy.c b/copy.c
index ea29d2c..529e41e 100644
--- a/copy.c
+++ b/copy.c
@@ -42,11 +42,31 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
 
 
 
+/*
+ * Datatypes of pending messages.  The user may free a datatype while
+ * messages using it are pending, so each of those holds a private copy.
+ */
+
+Datatype mpi_type_ptr(MPI_Datatype type)
+{
+  return *(Datatype*) mpi_handle_to_datatype(type);
+}
+
+
+Datatype mpi_type_copy(MPI_Datatype type)
+{
+  Datatype copy;
+
+  Type_dup(mpi_type_ptr(type), &copy);
+  return copy;
+}
+
+
 /* number of simple types in count items of a type */
 
-int mpi_type_elements(int count, MPI_Datatype type)
+int mpi_type_elements(int count, Datatype type)
 {
-  return count * (*(Datatype*) mpi_handle_to_datatype(type))->count;
+  return count * type->count;
 }
 
 
@@ -92,20 +112,18 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
  * Returns the number of elements (simple types) received.
  */
 
-int copy_message(void *source, int src_count, MPI_Datatype src_type,
-                 void *dest, int dest_count, MPI_Datatype dest_type)
+int copy_message(void *source, int src_count, Datatype src_type,
+                 void *dest, int dest_count, Datatype dest_type)
 {
-  Datatype src_ptr = *(Datatype*) mpi_handle_to_datatype(src_type);
-  Datatype dest_ptr = *(Datatype*) mpi_handle_to_datatype(dest_type);
   int elements;
 
-  check_committed(src_ptr, dest_ptr);
+  check_committed(src_type, dest_type);
 
-  elements = dest_ptr->count * dest_count;
-  if (src_ptr->count * src_count < elements)
-    elements = src_ptr->count * src_count;
+  elements = mpi_type_elements(dest_count, dest_type);
+  if (mpi_type_elements(src_count, src_type) < elements)
+    elements = mpi_type_elements(src_count, src_type);
 
-  copy_elements(source, src_ptr, dest, dest_ptr, elements);
+  copy_elements(source, src_type, dest, dest_type, elements);
   return elements;
 }
 
diff --git a/mpiP.h b/mpiP.h
index e441995..a2f2191 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -90,6 +90,8 @@ typedef struct
 
 
 
+struct _Typestruct;          /* see type.h */
+
 typedef struct
 {
   pListitem listitem;        /* to allow Req to be removed from list */
@@ -99,7 +101,7 @@ typedef struct
   int tag;
   int complete;
   int count;
-  MPI_Datatype type;  /* needed for test_simple_bindexed2 */
+  struct _Typestruct *type;  /* private copy, only while pending */
   int elements;       /* number of simple types received */
 } Req;
 
@@ -109,10 +111,12 @@ typedef struct
 /* copy functions */
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
-extern int copy_message(void *source, int src_count, MPI_Datatype src_type,
-                        void *dest, int dest_count, MPI_Datatype dest_type);
+extern int copy_message(void *source, int src_count, struct _Typestruct *src_type,
+                        void *dest, int dest_count, struct _Typestruct *dest_type);
 
-extern int mpi_type_elements(int count, MPI_Datatype type);
+extern struct _Typestruct *mpi_type_ptr(MPI_Datatype type);
+extern struct _Typestruct *mpi_type_copy(MPI_Datatype type);
+extern int mpi_type_elements(int count, struct _Typestruct *type);
 
 extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
diff --git a/recv.c b/recv.c
index dcdf5b7..8fa7caa 100644
--- a/recv.c
+++ b/recv.c
@@ -60,7 +60,6 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **)&rreq);
-  rreq->type = datatype;
   rreq->count = count;
   rreq->elements = 0;
   if (source==MPI_PROC_NULL)
@@ -80,7 +79,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
 
 //      memcpy(buf,sreq->buf,count * datatype);
       rreq->elements=copy_message(sreq->buf, sreq->count, sreq->type,
-                                  buf, count, datatype);
+                                  buf, count, mpi_type_ptr(datatype));
+      mpi_free(sreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
@@ -96,6 +96,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
     }
 
   rreq->buf=buf;
+  rreq->type=mpi_type_copy(datatype);
   rreq->tag=tag;
   rreq->complete=0;
   rreq->listitem=AP_list_append(mycomm->recvlist,rreq);
diff --git a/send.c b/send.c
index 49d054f..889aa6b 100644
--- a/send.c
+++ b/send.c
@@ -67,8 +67,9 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      rreq->elements=copy_message(buf, count, datatype,
+      rreq->elements=copy_message(buf, count, mpi_type_ptr(datatype),
                                   rreq->buf, rreq->count, rreq->type);
+      mpi_free(rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
@@ -85,7 +86,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
 
   sreq->buf=buf;
   sreq->count=count;
-  sreq->type=datatype;
+  sreq->type=mpi_type_copy(datatype);
   sreq->tag=tag;
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
diff --git a/type.h b/type.h
index f495289..b56fc8b 100644
--- a/type.h
+++ b/type.h
@@ -20,7 +20,7 @@ typedef struct
   Simpletype type;
 } typepair;
 
-typedef struct
+typedef struct _Typestruct
 {
   int count;
   long ub;
@@ -82,6 +82,7 @@ typedef Typestruct* Datatype;
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
+int Type_dup(Datatype oldtype, Datatype *newtype);
 
 //testing only
 int print_typemap(MPI_Datatype in);
-- 
2.43.0


From 2a9b24a99cc04ff4ceb2a1e75bf72a1b8a5a33d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 11/35] fix: MPI_Type_free sets the handle to MPI_DATATYPE_NULL

---
 type.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/type.c b/type.c
index 3c901d9..77cb96d 100644
--- a/type.c
+++ b/type.c
@@ -851,6 +851,7 @@ int MPI_Type_free(MPI_Datatype * datatype)
   type_ptr = MPI_DATATYPE_NULL;
 
   mpi_free_handle(*datatype);
+  *datatype = MPI_DATATYPE_NULL;
 
   return MPI_SUCCESS;
 }
-- 
2.43.0


From b6d869b18ca651be9718938ba62134d247d0edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 12/35] fix: MPI_Request_free leaves a pending operation intact

Freeing the request of a queued operation returned its storage to the free list
while the queue still used it, so a later request corrupted the operation.
---
 mpiP.h |  1 +
 recv.c |  2 ++
 req.c  | 10 +++++++++-
 send.c |  2 ++
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/mpiP.h b/mpiP.h
index a2f2191..0c02aa8 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -103,6 +103,7 @@ typedef struct
   int count;
   struct _Typestruct *type;  /* private copy, only while pending */
   int elements;       /* number of simple types received */
+  int freed;          /* handle to free once complete, or 0 */
 } Req;
 
 
diff --git a/recv.c b/recv.c
index 8fa7caa..235e1c4 100644
--- a/recv.c
+++ b/recv.c
@@ -86,6 +86,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
 
       sreq->complete=1;
+      mpi_free_handle(sreq->freed);          /* if user freed it already */
 
 #ifdef DEBUG
       printf("Completion(recv) value=%d tag=%d\n",
@@ -99,6 +100,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
   rreq->type=mpi_type_copy(datatype);
   rreq->tag=tag;
   rreq->complete=0;
+  rreq->freed=0;
   rreq->listitem=AP_list_append(mycomm->recvlist,rreq);
 
 #ifdef INFO
diff --git a/req.c b/req.c
index ad6c4b9..9fa8a93 100644
--- a/req.c
+++ b/req.c
@@ -286,7 +286,15 @@ int FC_FUNC(mpi_request_free, MPI_REQUEST_FREE)
 
 int MPI_Request_free(MPI_Request * req)
 {
-  mpi_free_handle(*req);
+  Req *r;
+
+  r=mpi_handle_to_ptr(*req);
+
+  if (r && !r->complete)
+    r->freed=*req;             /* still queued: free when it is matched */
+  else
+    mpi_free_handle(*req);
+
   *req = MPI_REQUEST_NULL;
   return (MPI_SUCCESS);
 }
diff --git a/send.c b/send.c
index 889aa6b..a626a1d 100644
--- a/send.c
+++ b/send.c
@@ -73,6 +73,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
+      mpi_free_handle(rreq->freed);     /* if user freed the request already */
 
       sreq->complete=1;
 
@@ -89,6 +90,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
   sreq->type=mpi_type_copy(datatype);
   sreq->tag=tag;
   sreq->complete=0;
+  sreq->freed=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
 
 #ifdef INFO
-- 
2.43.0


From d0fd46528ccd1c69f1726c72e7a4d60187458a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 13/35] fix: MPI_Testall completes all requests or none

The loop condition tested the flag pointer, and requests found complete before
an incomplete one were freed although flag=0 was returned.  Also accept
MPI_STATUSES_IGNORE for more than one request in Testall and Waitall.
---
 req.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/req.c b/req.c
index 9fa8a93..27cbb9e 100644
--- a/req.c
+++ b/req.c
@@ -144,6 +144,16 @@ int MPI_Testany(int count,  MPI_Request *array_of_requests,
   return(MPI_SUCCESS);
 }
 
+/* i-th status of an array, which may be MPI_STATUSES_IGNORE */
+
+static MPI_Status *nth_status(MPI_Status *array_of_statuses, int i)
+{
+  if (array_of_statuses==MPI_STATUSES_IGNORE)
+    return(MPI_STATUS_IGNORE);
+
+  return(&array_of_statuses[i]);
+}
+
 /************
  * testall: tests that all requests have completed,
  * if so return request array, otherwise set flag=0
@@ -162,17 +172,24 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
 {
   int i;
   int iflag;
+  Req *req;
 
   *flag = 1;
 
-  for (i=0; i<count && flag; i++)
+  /* all or nothing: don't touch any request unless all are complete */
+
+  for (i=0; i<count && *flag; i++)
   {
-      MPI_Test(&array_of_requests[i],&iflag,&array_of_statuses[i]);
+      req=mpi_handle_to_ptr(array_of_requests[i]);
 
-      if (!iflag)
+      if (req && !req->complete)
         *flag=0;
   }
 
+  for (i=0; i<count && *flag; i++)
+      MPI_Test(&array_of_requests[i],&iflag,
+               nth_status(array_of_statuses,i));
+
   return(MPI_SUCCESS);
 }
 
@@ -200,7 +217,8 @@ int MPI_Waitall(int count, MPI_Request *array_of_requests,
 
   for (i=0; i<count; i++)
     {
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&flag,
+               nth_status(array_of_statuses,i));
 
       if (!flag)
         {
-- 
2.43.0


From dfe0c3499852543ef929901b6530d4c0484518b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 14/35] fix: MPI_Testany/MPI_Waitany return the index and
 ignore null requests

The index was never set, and a null request anywhere in the array was reported
as completed in place of an active one.
---
 req.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/req.c b/req.c
index 27cbb9e..85f814f 100644
--- a/req.c
+++ b/req.c
@@ -87,6 +87,8 @@ int FC_FUNC( mpi_waitany , MPI_WAITANY )(int *count, int *requests,
 {
 
   *ierror=MPI_Waitany(*count, (void *)requests,index,mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -122,6 +124,8 @@ int FC_FUNC(mpi_testany, MPI_TESTANY)
 {
   *ierr = MPI_Testany(*count, array_of_requests, index,
                       flag, mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -129,15 +133,31 @@ int MPI_Testany(int count,  MPI_Request *array_of_requests,
                 int *index, int *flag, MPI_Status *status)
 {
   int i;
+  int active=0;
+  MPI_Request none=MPI_REQUEST_NULL;
+
+  *index=MPI_UNDEFINED;
 
   for (i=0; i<count; i++)
     {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
       MPI_Test(&array_of_requests[i],flag,status);
 
       if (*flag)
-        return(MPI_SUCCESS);
+        {
+          *index=i;
+          return(MPI_SUCCESS);
+        }
     }
 
+  /* no active requests at all: return an empty status */
+
+  if (!active)
+    return(MPI_Test(&none,flag,status));
+
   /* none are completed */
 
   *flag=0;
-- 
2.43.0


From b4255470d816237a4d383d33f9e32b314a37ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 15/35] fix: MPI_Testsome/MPI_Waitsome return indices and
 matching statuses

The index array was never set, statuses were stored at the request's position
instead of the outcount's, null requests were counted as completed, and Waitsome
tested the pointer outcount, so it never detected that nothing was complete.
---
 req.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/req.c b/req.c
index 85f814f..af78975 100644
--- a/req.c
+++ b/req.c
@@ -258,8 +258,12 @@ int FC_FUNC(mpi_testsome, MPI_TESTSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int * array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Testsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;     /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -268,17 +272,29 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
 {
   int i;
   int flag;
+  int active=0;
 
   *outcount = 0;
   for (i=0; i<incount; i++)
   {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
       flag=0;
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&flag,
+               nth_status(array_of_statuses,*outcount));
       
       if (flag)
+      {
+	  array_of_indices[*outcount]=i;
 	  (*outcount)++;
+      }
   }
 
+  if (!active)
+    *outcount = MPI_UNDEFINED;
+
   return(MPI_SUCCESS);
 
 }
@@ -291,8 +307,12 @@ int FC_FUNC(mpi_waitsome, MPI_WAITSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int *array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Waitsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;     /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -302,7 +322,7 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
   MPI_Testsome(incount, array_of_requests, outcount,
                array_of_indices, array_of_statuses);
 
-  if (!outcount)
+  if (*outcount==0)
   {
     fprintf(stderr,"Waitsome: No requests complete, deadlock\n");
     abort();
-- 
2.43.0


From ac07be3668b2eceeed79e6842981cf6b9e3ba488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 16/35] fix: MPI_Intercomm_merge returns a communicator

The output argument was never set, and the Fortran binding was missing.
---
 ic_merge.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ic_merge.c b/ic_merge.c
index e6465c1..54a8094 100644
--- a/ic_merge.c
+++ b/ic_merge.c
@@ -3,13 +3,18 @@
 
 /*
  * MPI_Intercomm_merge - Creates an intracommunicator from an intercommunicator
- * This is just a stub for now to support mpi function calls even in Serial
- * applications. In the case of a serial program, this function is a no-op and
- * only ever returns MPI_SUCCESS
+ * In the case of a serial program, this is simply a new communicator.
  */
 
+int FC_FUNC(mpi_intercomm_merge, MPI_INTERCOMM_MERGE)
+     (int *intercomm, int *high, int *newintracomm, int *ierror)
+{
+  *ierror=MPI_Intercomm_merge(*intercomm, *high, newintracomm);
+  return MPI_SUCCESS;
+}
+
+
 int MPI_Intercomm_merge( MPI_Comm intercomm, int high, MPI_Comm *newintracomm )
 {
-  newintracomm =  &intercomm;
-  return(MPI_SUCCESS);
+  return(MPI_Comm_dup(intercomm, newintracomm));
 }
-- 
2.43.0


From 850b7200dd2bf5ae9a19e8085c46b5c6375fa351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 17/35] fix: add the documented Fortran binding
 mpi_errhandler_set

---
 error.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/error.c b/error.c
index d26cfd1..cfed774 100644
--- a/error.c
+++ b/error.c
@@ -7,6 +7,13 @@
  * doing anything
  */
 
+int FC_FUNC(mpi_errhandler_set, MPI_ERRHANDLER_SET)
+     (int *comm, int *handle, int *ierror)
+{
+  *ierror=MPI_Errhandler_set(*comm, *handle);
+  return MPI_SUCCESS;
+}
+
  int MPI_Errhandler_set(MPI_Comm comm, MPI_Errhandler handle)
  {
    return(MPI_SUCCESS);
-- 
2.43.0


From 43cef02ab3d39bee603bd2093c54290bbae14849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 18/35] fix: complete the table of predefined datatypes

MPI_SIGNED_CHAR and MPI_WCHAR are defined in mpi.h but were missing from the
table (NULL dereference); MPI_INTEGER16 and the bound markers had no length, so
using them ended the program.
---
 type.c       |  9 +++++++++
 type.h       |  3 +++
 type_const.c | 10 +++++++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 77cb96d..69dfc10 100644
--- a/type.c
+++ b/type.c
@@ -93,6 +93,9 @@ int Simpletype_length(Simpletype t)
       return sizeof(long double); break;
     case SIMPLE_BYTE:
       return sizeof(char); break;
+    case SIMPLE_LOWER:
+    case SIMPLE_UPPER:
+      return 0; break;
     case SIMPLE_FINTEGER:
       return FSIZE_INTEGER; break;
     case SIMPLE_FREAL:
@@ -115,6 +118,8 @@ int Simpletype_length(Simpletype t)
       return 4; break;
     case SIMPLE_FINTEGER8:
       return 8; break;
+    case SIMPLE_FINTEGER16:
+      return 16; break;
     case SIMPLE_FREAL4:
       return 4; break;
     case SIMPLE_FREAL8:
@@ -133,6 +138,10 @@ int Simpletype_length(Simpletype t)
       return sizeof(unsigned long long); break;
     case SIMPLE_OFFSET:
       return sizeof(MPI_Offset); break;
+    case SIMPLE_SCHAR:
+      return sizeof(signed char); break;
+    case SIMPLE_WCHAR:
+      return sizeof(wchar_t); break;
 
     default:
       printf("Invalid simple type\n");
diff --git a/type.h b/type.h
index b56fc8b..c1b8030 100644
--- a/type.h
+++ b/type.h
@@ -79,6 +79,9 @@ typedef Typestruct* Datatype;
 
 #define SIMPLE_OFFSET      34
 
+#define SIMPLE_SCHAR       35
+#define SIMPLE_WCHAR       36
+
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
diff --git a/type_const.c b/type_const.c
index 6afa7f0..f76f516 100644
--- a/type_const.c
+++ b/type_const.c
@@ -161,6 +161,14 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                             .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
 			    {.disp = 0,   .type = (Simpletype) SIMPLE_OFFSET }};
 
+Typestruct TSschar  = {.count=1,     .lb=0,   .ub=sizeof(signed char),
+                       .committed=1, .o_lb=0, .o_ub=0, .pairs[0] =
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_SCHAR }};
+
+Typestruct TSwchar  = {.count=1,     .lb=0,   .ub=sizeof(wchar_t),
+                       .committed=1, .o_lb=0, .o_ub=0, .pairs[0] =
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_WCHAR }};
+
 
 
  /* RML NOTE: the order and numbering of the elements of simpletypes[] MUST match
@@ -180,7 +188,7 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                        &TSinteger2, &TSinteger4  , &TSinteger8   , &TSinteger16,  //32
                        &TSreal4	  , &TSreal8	 , &TSreal16     , &TScomplex8,   //36
                        &TScomplex16, &TScomplex32, &TSlonglong   , &TSulonglong,  //40
-                       &TSoffset
+                       &TSoffset  , &TSschar     , &TSwchar                        //44
                        };
 
 
-- 
2.43.0


From 01a68563875bb4e06461da5ca956d186bf8f1e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:39 +0000
Subject: [PATCH 19/35] fix: support MPI_IN_PLACE in all collectives that
 define it

Reduce, Reduce_scatter, Scan and the Alltoall family dereferenced the
placeholder.
---
 collective.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/collective.c b/collective.c
index 607fd66..483b960 100644
--- a/collective.c
+++ b/collective.c
@@ -317,6 +317,9 @@ int MPI_Reduce(void* sendbuf, void* recvbuf, int count,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 //  memcpy(recvbuf,sendbuf,count * datatype);
 
@@ -372,6 +375,9 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
 int MPI_Reduce_scatter(void* sendbuf, void* recvbuf, int *recvcounts,
                          MPI_Datatype datatype, MPI_Op op, MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, recvcounts[0], datatype, recvbuf, recvcounts[0], datatype);
   return MPI_SUCCESS;
 }
@@ -395,6 +401,9 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
 int MPI_Scan(void* sendbuf, void* recvbuf, int count,
              MPI_Datatype datatype, MPI_Op op, MPI_Comm comm )
 {
+    if (sendbuf==MPI_IN_PLACE)
+      return(MPI_SUCCESS);
+
     copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 
     return(MPI_SUCCESS);
@@ -419,6 +428,9 @@ int MPI_Alltoall(void *sendbuf, int sendcount, MPI_Datatype sendtype,
 		 void *recvbuf, int recvcount, MPI_Datatype recvtype,
 		 MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype, recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount * sendtype);
 
@@ -454,6 +466,9 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   MPI_Type_extent(recvtype, &rt_extent);
 
@@ -495,6 +510,8 @@ int MPI_Alltoallw(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
 
   copy_data2((char*)sendbuf+sdispls[0], sendcounts[0], sendtypes[0],
              (char*)recvbuf+rdispls[0], recvcounts[0], recvtypes[0]);
-- 
2.43.0


From 8f52bf6925280a93b12f6adaff5e1145f8ce9e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 20/35] fix: recognise MPI_IN_PLACE in the remaining Fortran
 collectives

mpi_reduce, mpi_allreduce, mpi_reduce_scatter, mpi_scan and mpi_alltoall(v,w)
copied from the Fortran placeholder over the caller's data.
---
 collective.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/collective.c b/collective.c
index 483b960..478bf6a 100644
--- a/collective.c
+++ b/collective.c
@@ -300,7 +300,7 @@ int FC_FUNC( mpi_reduce , MPI_REDUCE )
 			 int *datatype, int *op, int *root, int *comm,
 			 int *ierror)
 {
-  *ierror=MPI_Reduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Reduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 		     *datatype, *op, *root, *comm);
   return MPI_SUCCESS;
 }
@@ -334,7 +334,7 @@ int FC_FUNC( mpi_allreduce , MPI_ALLREDUCE )
                           ( void *sendbuf, void *recvbuf, int *count,
 			    int *datatype, int *op, int *comm, int *ierror)
 {
-  *ierror=MPI_Allreduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Allreduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 			*datatype, *op, *comm);
   return MPI_SUCCESS;
 
@@ -367,7 +367,7 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
                 (void * sendbuf, void * recvbuf, int *recvcounts,
                  int *datatype, int *op, int *comm, int *ierr)
 {
-  *ierr = MPI_Reduce_scatter(sendbuf, recvbuf, recvcounts, *datatype, *op, *comm);
+  *ierr = MPI_Reduce_scatter(mpi_c_in_place(sendbuf), recvbuf, recvcounts, *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
 
@@ -391,7 +391,7 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
                          int *datatype, int *op, int *comm,
                          int *ierror)
 {
-  *ierror=MPI_Scan( sendbuf, recvbuf, *count,
+  *ierror=MPI_Scan( mpi_c_in_place(sendbuf), recvbuf, *count,
                     *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
@@ -417,7 +417,7 @@ int FC_FUNC( mpi_alltoall , MPI_ALLTOALL )
 			  void *recvbuf, int *recvcount, int *recvtype,
                           int *comm, int *ierror )
 {
-  *ierror=MPI_Alltoall(sendbuf, *sendcount, *sendtype,
+  *ierror=MPI_Alltoall(mpi_c_in_place(sendbuf), *sendcount, *sendtype,
 		       recvbuf, *recvcount, *recvtype,
 		       *comm);
   return MPI_SUCCESS;
@@ -447,7 +447,7 @@ int FC_FUNC( mpi_alltoallv , MPI_ALLTOALLV )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallv(sendbuf, sendcounts, sdispls, *sendtype,
+  *ierror=MPI_Alltoallv(mpi_c_in_place(sendbuf), sendcounts, sdispls, *sendtype,
 			recvbuf, recvcounts, rdispls, *recvtype,
 			*comm);
 
@@ -495,7 +495,7 @@ int FC_FUNC( mpi_alltoallw , MPI_ALLTOALLW )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallw(sendbuf, sendcounts, sdispls, sendtypes,
+  *ierror=MPI_Alltoallw(mpi_c_in_place(sendbuf), sendcounts, sdispls, sendtypes,
 			recvbuf, recvcounts, rdispls, recvtypes,
 			*comm);
 
-- 
2.43.0


From 67d18bda0f9c6e502c7cbbb9def8e585509f6402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 21/35] fix: check the root of in-place gathers and scatters

MPI_IN_PLACE skipped the check for a bad root in Gather(v) and Scatter(v).
---
 collective.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/collective.c b/collective.c
index 478bf6a..fa6a45c 100644
--- a/collective.c
+++ b/collective.c
@@ -69,9 +69,6 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 	       void* recvbuf, int recvcount, MPI_Datatype recvtype,
 	       int root, MPI_Comm comm)
 {
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -81,6 +78,9 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount*sendtype);
@@ -111,9 +111,6 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
   MPI_Aint offset;
   MPI_Aint rt_extent;
 
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -123,6 +120,9 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(recvtype, &rt_extent);
   offset=displs[0]*rt_extent;
 
@@ -226,9 +226,6 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
 		void * recvbuf, int recvcount, MPI_Datatype recvtype,
 		int root, MPI_Comm comm)
 {
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -238,6 +235,9 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 
@@ -269,9 +269,6 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
   MPI_Aint offset;
   MPI_Aint st_extent;
 
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -280,6 +277,10 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
       fprintf(stderr,"MPI_Scatterv: bad root = %d\n",root);
       abort();
     }
+
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   offset=displs[0]*st_extent;
 
-- 
2.43.0


From e8c8bae3b682c683a3f774368714cb4bbbdf12b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 22/35] fix: MPI_Pack_size no longer prints to stdout

---
 pack.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pack.c b/pack.c
index e7efba2..82719ed 100644
--- a/pack.c
+++ b/pack.c
@@ -70,7 +70,6 @@ int Pack_size(int incount, Datatype datatype,
         *size += Simpletype_length(datatype->pairs[i].type);
     }
     *size *= incount;
-    printf("Size = %d\n", *size);
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 4bdde6d79810f31130192e35607f7a20d5f87f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 23/35] fix: Fortran mpi_pack_size stores a default integer

It wrote an MPI_Aint over the caller's INTEGER and the variable next to it.
---
 pack.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pack.c b/pack.c
index 82719ed..65eba6a 100644
--- a/pack.c
+++ b/pack.c
@@ -74,9 +74,12 @@ int Pack_size(int incount, Datatype datatype,
 }
 
 int FC_FUNC( mpi_pack_size, MPI_PACK_SIZE )(int * incount, int * datatype,
-                                          int * comm, MPI_Aint * size, int *ierr)
+                                          int * comm, int * size, int *ierr)
 {
-  *ierr = MPI_Pack_size(*incount, *datatype, *comm, size);
+  MPI_Aint csize;
+
+  *ierr = MPI_Pack_size(*incount, *datatype, *comm, &csize);
+  *size = csize;
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 7dc9a458c89e0b118bb9f89afd36a4ed19bcf559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 24/35] fix: Fortran mpi_type_hvector reads a default integer
 block length

The block length was read as an 8-byte integer, picking up the neighbouring
variable.
---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 69dfc10..47f174a 100644
--- a/type.c
+++ b/type.c
@@ -507,7 +507,7 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, long * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_hvector(*count, *blocklen, *stride, *oldtype, newtype);
@@ -525,7 +525,7 @@ int MPI_Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_create_hvector, MPI_TYPE_CREATE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, long * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_create_hvector(*count, *blocklen, *stride, *oldtype, newtype);
-- 
2.43.0


From a465f55eb58b6f50e457bb8ab08b598e1c4e7ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 25/35] fix: MPI_Type_ub includes the padding of the extent

The extent is by definition ub - lb, but the reported ub was the unpadded one.
---
 type.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 47f174a..089d7a0 100644
--- a/type.c
+++ b/type.c
@@ -779,7 +779,11 @@ int MPI_Type_lb(MPI_Datatype type, MPI_Aint * lb)
  */
 int Type_ub(Datatype type, MPI_Aint * ub)
 {
-    *ub = type->ub;
+    MPI_Aint extent;
+
+    //includes the padding that the extent has
+    Type_extent(type, &extent);
+    *ub = type->lb + extent;
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From de23e25d92cf5c96ece79cfe388931b9262ebf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 26/35] fix: MPI_Probe and MPI_Iprobe accept MPI_PROC_NULL

Like the receives they announce, they must return at once with an empty
message; they aborted with "bad source".
---
 probe.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/probe.c b/probe.c
index 076ce6d..51b340f 100644
--- a/probe.c
+++ b/probe.c
@@ -34,6 +34,19 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
          mycomm->num,tag,count,datatype);
 #endif
 
+  if (source==MPI_PROC_NULL)
+    {
+      *flag=1;
+
+      if (status!=MPI_STATUS_IGNORE)
+	{
+	  status->MPI_SOURCE=MPI_PROC_NULL;
+	  status->MPI_TAG=MPI_ANY_TAG;
+	  status->get_count=0;
+	}
+
+      return(MPI_SUCCESS);
+    }
 
   if (source!=0 && source!=MPI_ANY_SOURCE)
     {
-- 
2.43.0


From c796ef6f36d1595dec4459614da2683282fdd56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 27/35] fix: declare all documented routines in mpi.h

MPI_Init_thread, MPI_Info_free, MPI_Get_address and MPI_Address had no
prototypes, so C programs using them do not compile with current compilers.
---
 mpi.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpi.h b/mpi.h
index 9428558..e14ebcc 100644
--- a/mpi.h
+++ b/mpi.h
@@ -341,6 +341,7 @@ extern MPI_Group MPI_Group_f2c(MPI_Fint group);
 extern MPI_Fint MPI_Group_c2f(MPI_Group group);
 
 extern int MPI_Init(int *argc, char **argv[]) ;
+extern int MPI_Init_thread(int *argc, char **argv[], int required, int *provided);
 extern int MPI_Finalize(void);
 extern int MPI_Abort(MPI_Comm comm, int errorcode);
 extern int MPI_Error_string(int errorcode, char *string, int *resultlen);
@@ -348,6 +349,7 @@ extern int MPI_Get_processor_name(char *name, int *resultlen);
 
 extern int MPI_Info_create(MPI_Info *info);
 extern int MPI_Info_set(MPI_Info info, char *key, char *value);
+extern int MPI_Info_free(MPI_Info *info);
 
 extern int MPI_Initialized(int *flag);
 extern int MPI_Pack( void *inbuf, int incount, MPI_Datatype datatype,
@@ -436,6 +438,9 @@ extern int MPI_Type_free(MPI_Datatype * datatype);
 extern int MPI_Type_lb(MPI_Datatype datatype, MPI_Aint * lb);
 extern int MPI_Type_ub(MPI_Datatype datatype, MPI_Aint * ub);
 
+extern int MPI_Get_address(void *loc, MPI_Aint *address);
+extern int MPI_Address(void *loc, MPI_Aint *address);
+
 extern double MPI_Wtime(void);
 
 #endif
-- 
2.43.0


From 2e7b5c97b3a2e10cf259d37b0c870019c3693831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 28/35] fix: MPI_Cart_get returns the periodicity of the grid

The periods argument was left untouched.
---
 cart.c | 15 +++++++++++++++
 comm.c |  4 ++++
 mpiP.h |  3 +++
 3 files changed, 22 insertions(+)

diff --git a/cart.c b/cart.c
index ee8ea0b..51d0e98 100644
--- a/cart.c
+++ b/cart.c
@@ -21,6 +21,8 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
                      int reorder, MPI_Comm *comm_cart)
 {
   int i;
+  Comm *cart;
+
   for (i = 0; i < ndims; i++)
     if (dims[i] > 1)
     {
@@ -30,6 +32,14 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
 
   MPI_Comm_dup(comm_old, comm_cart);
 
+  if (ndims > 0)
+  {
+    cart = mpi_handle_to_ptr(*comm_cart);
+    cart->cart_ndims = ndims;
+    cart->cart_periods = mpi_malloc(ndims * sizeof(int));
+    memcpy(cart->cart_periods, periods, ndims * sizeof(int));
+  }
+
   return MPI_SUCCESS;
 }
 
@@ -58,9 +68,14 @@ int MPI_Cart_get(MPI_Comm comm, int maxdims, int *dims,
                  int *periods, int *coords)
 {
   int i;
+  Comm *cart;
+
+  cart=mpi_handle_to_ptr(comm);
+
   for (i=0;i<maxdims;i++)
   {
     dims[i]=1;
+    periods[i]= (i < cart->cart_ndims) ? cart->cart_periods[i] : 0;
     coords[i]=0;
   }
   return(MPI_SUCCESS);
diff --git a/comm.c b/comm.c
index c9c1ecb..c772281 100644
--- a/comm.c
+++ b/comm.c
@@ -23,6 +23,9 @@ MPI_Comm mpi_comm_new(void)
 
   cptr->num=num++;
 
+  cptr->cart_ndims=0;
+  cptr->cart_periods=NULL;
+
   return(chandle);
 }
 
@@ -71,6 +74,7 @@ int MPI_Comm_free(MPI_Comm *comm)
 	    size);
   AP_list_free(recvlist);
 
+  mpi_free(mycomm->cart_periods);
   mpi_free_handle(*comm);            /* free(mycomm); */
   *comm=MPI_COMM_NULL;
 
diff --git a/mpiP.h b/mpiP.h
index 0c02aa8..3c3a795 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -86,6 +86,9 @@ typedef struct
 
   int num;
 
+  int cart_ndims;              /* cartesian topology, if any */
+  int *cart_periods;
+
 } Comm;
 
 
-- 
2.43.0


From b53dba15b67555a64b58dd1a04529af2155c4f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 29/35] fix: build large datatypes without overflowing the
 stack

The constructors kept count-sized arrays on the stack; e.g. a contiguous type of
500000 elements crashed.
---
 type.c | 78 +++++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 23 deletions(-)

diff --git a/type.c b/type.c
index 089d7a0..57ddc93 100644
--- a/type.c
+++ b/type.c
@@ -265,6 +265,22 @@ int Copy_type(typepair *source, typepair *dest)
 
 }
 
+/* type_array: temporary argument array of a constructor.
+ * (Not on the stack: counts may be large.)
+ */
+static void * type_array(int count, size_t size)
+{
+  void * array = malloc(count > 0 ? count * size : 1);
+
+  if (!array)
+  {
+    fprintf(stderr, "mpi-serial: out of memory constructing a datatype\n");
+    abort();
+  }
+
+  return array;
+}
+
 /*******************************************************/
 /* MPI_Type_struct is the most general type constructor that
  * does the common work other constructors.
@@ -426,8 +442,8 @@ int FC_FUNC( mpi_type_struct, MPI_TYPE_STRUCT )
 int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                     MPI_Datatype *oldtypes,     MPI_Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes_ptr[count];
+    int i, ret;
+    Datatype * oldtypes_ptr = type_array(count, sizeof(Datatype));
     Datatype * newtype_ptr;
 
     for (i = 0; i < count; i++)
@@ -437,8 +453,10 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     mpi_alloc_handle(newtype, (void**) &newtype_ptr);
 
-    return Type_struct(count, blocklens, displacements,
-                       oldtypes_ptr, newtype_ptr);
+    ret = Type_struct(count, blocklens, displacements,
+                      oldtypes_ptr, newtype_ptr);
+    mpi_free(oldtypes_ptr);
+    return ret;
 }
 
 /*******************************************************/
@@ -449,10 +467,10 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
 int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int i, ret;
+    int * blocklengths = type_array(count, sizeof(int));
+    Datatype * oldtypes = type_array(count, sizeof(Datatype));
+    MPI_Aint * offsets = type_array(count, sizeof(MPI_Aint));
     MPI_Aint extent;
 
     //each copy is strided by the extent of the datatype.
@@ -464,7 +482,11 @@ int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
         offsets[i] = extent * i;
         oldtypes[i] = oldtype;
     }
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    mpi_free(blocklengths);
+    mpi_free(oldtypes);
+    mpi_free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_contiguous, MPI_TYPE_CONTIGUOUS )
@@ -489,10 +511,10 @@ int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype * new)
 int Type_hvector(int count, int blocklen, MPI_Aint stride,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int i, ret;
+    int * blocklengths = type_array(count, sizeof(int));
+    Datatype * oldtypes = type_array(count, sizeof(Datatype));
+    MPI_Aint * offsets = type_array(count, sizeof(MPI_Aint));
     MPI_Aint extent;
 
     Type_extent(oldtype, &extent);
@@ -503,7 +525,11 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    mpi_free(blocklengths);
+    mpi_free(oldtypes);
+    mpi_free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
@@ -585,15 +611,17 @@ int MPI_Type_vector(int count, int blocklen, int stride,
 int Type_hindexed(int count, int *blocklens, MPI_Aint *displacements,
                   Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes[count];
+    int i, ret;
+    Datatype * oldtypes = type_array(count, sizeof(Datatype));
 
     for (i = 0; i < count; i++)
     {
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    ret = Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    mpi_free(oldtypes);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hindexed, MPI_TYPE_HINDEXED )
@@ -621,9 +649,9 @@ int MPI_Type_hindexed(int count, int *blocklens, MPI_Aint * disps,
 int Type_indexed(int count, int *blocklens, int *displacements,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
+    int i, ret;
     MPI_Aint extent;
-    MPI_Aint bdisps[count];
+    MPI_Aint * bdisps = type_array(count, sizeof(MPI_Aint));
 
     for (i = 0; i < count; i++)
     {
@@ -631,7 +659,9 @@ int Type_indexed(int count, int *blocklens, int *displacements,
         bdisps[i] = displacements[i] * extent;
     }
 
-    return Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    ret = Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    mpi_free(bdisps);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_indexed, MPI_TYPE_INDEXED )
@@ -658,13 +688,15 @@ int MPI_Type_indexed(int count, int *blocklens, int *displacements,
 int Type_create_indexed_block(int count, int blocklen, int *displacements,
 			      Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklens[count];
+    int i, ret;
+    int * blocklens = type_array(count, sizeof(int));
 
     for (i = 0; i < count; i++)
         blocklens[i] = blocklen;
 
-    return Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    ret = Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    mpi_free(blocklens);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_create_indexed_block, MPI_TYPE_CREATE_INDEXED_BLOCK )
-- 
2.43.0


From 65f4213149c0437510192040359ed696fdef50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 30/35] fix: print the topology diagnostics to stderr

abort() does not flush stdout, so with output to a file or pipe the program
died silently.
---
 cart.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cart.c b/cart.c
index 51d0e98..ef6a71d 100644
--- a/cart.c
+++ b/cart.c
@@ -26,7 +26,7 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
   for (i = 0; i < ndims; i++)
     if (dims[i] > 1)
     {
-      printf("MPI_Cart_create: Greater dimension than no. of procs\n");
+      fprintf(stderr,"MPI_Cart_create: Greater dimension than no. of procs\n");
       abort();
     }
 
@@ -105,7 +105,7 @@ int MPI_Cart_coords(MPI_Comm comm, int rank, int maxdims, int *coords)
 
   if (rank != 0)
   {
-    printf("MPI_Cart_coords: Rank != 0\n");
+    fprintf(stderr,"MPI_Cart_coords: Rank != 0\n");
     abort();
   }
 
@@ -137,7 +137,7 @@ int MPI_Dims_create(int nnodes, int ndims, int *dims)
 
   if (nnodes > 1)
   {
-    printf("MPI_Dims_create: More nodes than procs specified.\n");
+    fprintf(stderr,"MPI_Dims_create: More nodes than procs specified.\n");
     abort();
   }
 
-- 
2.43.0


From 5e03c67dc674a5c40fc71fcdf836ca82564c7264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 31/35] fix: upper-case Fortran name of MPI_Get_address

---
 type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 57ddc93..6921bbe 100644
--- a/type.c
+++ b/type.c
@@ -842,7 +842,7 @@ int FGet_address(void * loc, long * address)
     return MPI_SUCCESS;
 }
 
-int FC_FUNC( mpi_get_address, MPI_ADDRESS )(void * loc, long * address, int * ierr)
+int FC_FUNC( mpi_get_address, MPI_GET_ADDRESS )(void * loc, long * address, int * ierr)
 {
   *ierr = FGet_address(loc, address);
   return MPI_SUCCESS;
-- 
2.43.0


From dacff32d5eb1d5d0c874c63a5d43b1121c9b63e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 32/35] fix: release pending requests of a communicator that is
 freed

---
 comm.c | 26 ++++++++++++++++++++++++--
 req.c  |  2 +-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/comm.c b/comm.c
index c772281..c4fb0ef 100644
--- a/comm.c
+++ b/comm.c
@@ -46,10 +46,32 @@ int FC_FUNC( mpi_comm_free , MPI_COMM_FREE )(int *comm, int *ierror)
  * Note: will NOT free any pending MPI_Request handles
  * that are allocated...  correct user code should have
  * already done a Wait or Test to free them.
+ * (handles that the user gave to MPI_Request_free while
+ * they were pending are released)
  *
  */
 
 
+static void free_pending(pList list)
+{
+  void *data,*pos=NULL;
+  Req *req;
+
+  while (AP_list_next(list,&data,&pos))
+    {
+      req=(Req *)data;
+
+      mpi_free(req->type);
+      req->listitem=NULL;              /* can no longer be matched */
+
+      if (req->freed)
+        mpi_free_handle(req->freed);
+    }
+
+  AP_list_free(list);
+}
+
+
 int MPI_Comm_free(MPI_Comm *comm)
 {
   pList sendlist, recvlist;
@@ -65,14 +87,14 @@ int MPI_Comm_free(MPI_Comm *comm)
   if (size!=0)
     fprintf(stderr,"MPI_Comm_free: warning: %d pending send reqs\n",
 	    size);
-  AP_list_free(sendlist);
+  free_pending(sendlist);
 
 
   size=AP_list_size(recvlist);
   if (size!=0)
     fprintf(stderr,"MPI_Comm_free: warning: %d pending receive reqs\n",
 	    size);
-  AP_list_free(recvlist);
+  free_pending(recvlist);
 
   mpi_free(mycomm->cart_periods);
   mpi_free_handle(*comm);            /* free(mycomm); */
diff --git a/req.c b/req.c
index af78975..749338b 100644
--- a/req.c
+++ b/req.c
@@ -348,7 +348,7 @@ int MPI_Request_free(MPI_Request * req)
 
   r=mpi_handle_to_ptr(*req);
 
-  if (r && !r->complete)
+  if (r && !r->complete && r->listitem)
     r->freed=*req;             /* still queued: free when it is matched */
   else
     mpi_free_handle(*req);
-- 
2.43.0


From 837c923e6681614f84a8308e38b50c15f9884a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 33/35] fix: count elements of large messages without overflow

---
 copy.c | 19 ++++++++++---------
 mpiP.h |  2 +-
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/copy.c b/copy.c
index 529e41e..12ff29c 100644
--- a/copy.c
+++ b/copy.c
@@ -28,7 +28,7 @@ extern int Pcopy_data2(void *source, int src_count, Datatype src_type,
 
 
 static void copy_elements(void *source, Datatype src_type,
-                          void *dest, Datatype dest_type, int count);
+                          void *dest, Datatype dest_type, long count);
 
 
 int copy_data2(void *source, int src_count, MPI_Datatype src_type,
@@ -62,11 +62,11 @@ Datatype mpi_type_copy(MPI_Datatype type)
 }
 
 
-/* number of simple types in count items of a type */
+/* number of simple types in count items of a type (may exceed an int) */
 
-int mpi_type_elements(int count, Datatype type)
+long mpi_type_elements(int count, Datatype type)
 {
-  return count * type->count;
+  return (long) count * type->count;
 }
 
 
@@ -93,14 +93,15 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
   // A receive of less elements than sent
   // is valid, but the reverse is a violation
 
-  if (src_type->count * src_count < dest_type->count * dest_count)
+  if (mpi_type_elements(src_count, src_type) <
+      mpi_type_elements(dest_count, dest_type))
   {
     printf("copy_data: Trying to over-receive\n");
     exit(1);
   }
 
   copy_elements(source, src_type, dest, dest_type,
-                dest_type->count * dest_count);
+                mpi_type_elements(dest_count, dest_type));
   return MPI_SUCCESS;
 }
 
@@ -115,7 +116,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
 int copy_message(void *source, int src_count, Datatype src_type,
                  void *dest, int dest_count, Datatype dest_type)
 {
-  int elements;
+  long elements;
 
   check_committed(src_type, dest_type);
 
@@ -132,9 +133,9 @@ int copy_message(void *source, int src_count, Datatype src_type,
 /* copy the first count elements (simple types) from source to dest */
 
 static void copy_elements(void *source, Datatype src_type,
-                          void *dest, Datatype dest_type, int count)
+                          void *dest, Datatype dest_type, long count)
 {
-  int i;
+  long i;
   MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
diff --git a/mpiP.h b/mpiP.h
index 3c3a795..468b6ee 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -120,7 +120,7 @@ extern int copy_message(void *source, int src_count, struct _Typestruct *src_typ
 
 extern struct _Typestruct *mpi_type_ptr(MPI_Datatype type);
 extern struct _Typestruct *mpi_type_copy(MPI_Datatype type);
-extern int mpi_type_elements(int count, struct _Typestruct *type);
+extern long mpi_type_elements(int count, struct _Typestruct *type);
 
 extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
-- 
2.43.0


From 2880ca02cb121d58ffc6333f303340fd0b559247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 34/35] fix: accept group ranges whose stride steps over the
 last rank

---
 group.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/group.c b/group.c
index e7efcb2..720fd07 100644
--- a/group.c
+++ b/group.c
@@ -68,7 +68,11 @@ int MPI_Group_range_incl(MPI_Group group, int n, int ranges[][3],
   if (group==MPI_GROUP_EMPTY || n==0)
     *newgroup=MPI_GROUP_EMPTY;
   else
-    if (n==1 && ranges[0][0]==0 && ranges[0][1]==0)
+    if (n==1 && ranges[0][0]==0 &&
+        /* the stride may step over the last rank: only rank 0 */
+        (ranges[0][1]==0 ||
+         (ranges[0][1]>0 && ranges[0][1]<ranges[0][2]) ||
+         (ranges[0][1]<0 && ranges[0][1]>ranges[0][2])))
       *newgroup=MPI_GROUP_ONE;
     else
       {
-- 
2.43.0


From 19bbe3e66b39b2bc579462ace374d0a726112809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 35/35] fix: duplicate the cartesian topology in MPI_Comm_dup

---
 cart.c |  2 +-
 comm.c | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/cart.c b/cart.c
index ef6a71d..7ace5da 100644
--- a/cart.c
+++ b/cart.c
@@ -30,7 +30,7 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
       abort();
     }
 
-  MPI_Comm_dup(comm_old, comm_cart);
+  *comm_cart = mpi_comm_new();
 
   if (ndims > 0)
   {
diff --git a/comm.c b/comm.c
index c4fb0ef..3acbeaa 100644
--- a/comm.c
+++ b/comm.c
@@ -157,8 +157,23 @@ int FC_FUNC( mpi_comm_dup , MPI_COMM_DUP )(int *comm, int *newcomm, int *ierror)
 
 int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *newcomm)
 {
+  Comm *old, *new;
+
   *newcomm= mpi_comm_new();
 
+  /* a cartesian topology is duplicated, too */
+
+  old=mpi_handle_to_ptr(comm);
+
+  if (old && old->cart_ndims > 0)
+    {
+      new=mpi_handle_to_ptr(*newcomm);
+      new->cart_ndims=old->cart_ndims;
+      new->cart_periods=mpi_malloc(old->cart_ndims * sizeof(int));
+      memcpy(new->cart_periods,old->cart_periods,
+             old->cart_ndims * sizeof(int));
+    }
+
 #ifdef INFO
   fflush(stdout);
   fprintf(stderr,"MPI_Comm_dup: new comm handle=%d\n",*newcomm);
-- 
2.43.0

