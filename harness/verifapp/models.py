from django.db import models


class Post(models.Model):
    title = models.CharField(max_length=50)
    cat = models.IntegerField(default=0)

    class Meta:
        app_label = 'verifapp'


class Article(models.Model):
    title = models.CharField(max_length=50)
    cat = models.IntegerField(default=0)

    class Meta:
        app_label = 'verifapp'


class Note(models.Model):
    title = models.CharField(max_length=50)
    cat = models.IntegerField(default=0)
    post = models.ForeignKey(Post, null=True, on_delete=models.CASCADE)

    class Meta:
        app_label = 'verifapp'


class Plain(models.Model):
    """Never registered."""
    title = models.CharField(max_length=50)
    cat = models.IntegerField(default=0)

    class Meta:
        app_label = 'verifapp'


class Auto(models.Model):
    """Registered in verifapp.caches, found by autodiscover()."""
    title = models.CharField(max_length=50)
    cat = models.IntegerField(default=0)

    class Meta:
        app_label = 'verifapp'
